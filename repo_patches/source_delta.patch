From ce18f09ce51689796a4ce4e3b7c05ed060eba40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 001/108] fix: move strings, sequences and maps instead of
 copying them

---
 include/xtypes/DynamicData.hpp  | 2 +-
 include/xtypes/MapType.hpp      | 2 +-
 include/xtypes/SequenceType.hpp | 2 +-
 include/xtypes/StringType.hpp   | 8 ++++++--
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..c1a2bef 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1377,7 +1377,7 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
+        initialize_ = true;
     }
 
     /// \brief Assignment operator
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..59dec95 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -127,7 +127,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..3be6830 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..dedfa0f 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,13 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From f827401bde301a71b7108344687816884e17e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 002/108] fix: destroy the reserved places of sequences and
 maps before copying into them

---
 include/xtypes/MapInstance.hpp      |  2 ++
 include/xtypes/SequenceInstance.hpp | 10 +++-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..0e5d53a 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -146,6 +146,7 @@ public:
         }
 
         uint8_t* place = create_place(instance);
+        content_->destroy_instance(place); // All the reserved places are already constructed
         content_->first().copy_instance(place, instance);
         content_->second().construct_instance(place + content_->first().memory_size());
 
@@ -287,6 +288,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_); // The place is already constructed
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other.content_->memory_size(),
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..0e71f0d 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -156,6 +156,7 @@ public:
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
+        content_->destroy_instance(place); // All the reserved places are already constructed
         content_->copy_instance(place, instance);
 
         size_++;
@@ -175,13 +176,7 @@ public:
             return;
         }
 
-        realloc(new_size, bounds);
-
-        for (size_t i = size_; i < new_size; i++)
-        {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
-        }
+        realloc(new_size, bounds); // All the reserved places are already default-constructed
 
         size_ = new_size;
     }
@@ -281,6 +276,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_); // The place is already constructed
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
-- 
2.43.0


From ab671c9a36c1057b6eba80e788c3278c46f4af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 003/108] fix: copy the referenced data when constructing a
 DynamicData from a reference

---
 include/xtypes/DynamicData.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index c1a2bef..91a5b10 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1329,17 +1329,21 @@ public:
         initialize_ = true;
     }
 
-    /// \brief Copy constructor from a ReadableDynamicDataRef
+    /// \brief Copy constructor from a ReadableDynamicDataRef. The referenced data is copied.
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, type_->memory_size());
+        type_->copy_instance(instance_, p_instance(other));
+        initialize_ = true;
     }
 
-    /// \brief Move constructor from a WritableDynamicDataRef
+    /// \brief Constructor from a WritableDynamicDataRef.
+    /// A reference doesn't own the referenced data, so the data is copied.
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
-- 
2.43.0


From b4af5cabccc9518ee94d5e2d89caad851200a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 004/108] fix: keep the content of a DynamicData in a
 self-assignment

---
 include/xtypes/DynamicData.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 91a5b10..3effc94 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -819,8 +819,11 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        if (instance_ != p_instance(other)) // Nothing to do in a self-assignment
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, p_instance(other));
+        }
         return *this;
     }
 
@@ -1020,8 +1023,12 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
+        const uint8_t* source = reinterpret_cast<const uint8_t*>(&t);
+        if (instance_ != source) // Nothing to do in a self-assignment
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, source);
+        }
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1391,8 +1398,11 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        if (instance_ != p_instance(other)) // Nothing to do in a self-assignment
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, p_instance(other));
+        }
         return *this;
     }
 
@@ -1403,8 +1413,11 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        if (instance_ != p_instance(other)) // Nothing to do in a self-assignment
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, p_instance(other));
+        }
         return *this;
     }
 
-- 
2.43.0


From 0198cab5da057e75e94dbb2073061de1b3cc461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 005/108] fix: do not leak the instance memory when
 constructing a DynamicData from an incompatible one

---
 include/xtypes/DynamicData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 3effc94..7db09c1 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1361,11 +1361,12 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(type, nullptr)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
+        instance_ = new uint8_t[type.memory_size()];
         memset(instance_, 0, type.memory_size());
         type_->copy_instance_from_type(instance_, p_instance(other), other.type());
         initialize_ = true;
-- 
2.43.0


From 8695e877a4bd4ab9e2d013a4477643c4b61b8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 006/108] fix: check the type of the data assigned through a
 reference or pushed into a sequence

---
 include/xtypes/DynamicData.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 7db09c1..0b2f54c 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -816,9 +816,13 @@ public:
     using ReadableDynamicDataRef::d;
 
     /// \brief Assignment operator.
+    /// \pre Both references must represent the same type.
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign data of type '" << other.type().name() << "' to data of type '"
+                                               << type_->name() << "'.");
         if (instance_ != p_instance(other)) // Nothing to do in a self-assignment
         {
             type_->destroy_instance(instance_);
@@ -1066,6 +1070,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name()
+                                  << "' but '" << data.type().name() << "' received while pushing value.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
-- 
2.43.0


From 001d343e98199f0e5c24c0284061477da0840216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 007/108] fix: as_vector() of an empty collection is an empty
 vector

---
 include/xtypes/DynamicData.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 0b2f54c..97019e4 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -313,9 +313,9 @@ public:
     template<typename T, class = PrimitiveOrString<T> >
     std::vector<T> as_vector() const
     {
-        const CollectionType& collection = static_cast<const CollectionType&>(*type_);
         xtypes_assert(type_->is_collection_type(),
                 "as_vector() isn't available for type '" << type_->name() << "'.");
+        const CollectionType& collection = static_cast<const CollectionType&>(*type_);
         xtypes_assert((collection.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
                 || (collection.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
                 || (collection.content_type().kind() == TypeKind::STRING16_TYPE &&
@@ -324,6 +324,11 @@ public:
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
-- 
2.43.0


From a6cf2c3baabb8bc565edc38aa5fa276f8ceaa3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 008/108] fix: allow pushing or inserting an instance stored in
 the own collection

---
 include/xtypes/MapInstance.hpp      | 10 ++++++++++
 include/xtypes/SequenceInstance.hpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 0e5d53a..0aca15e 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -140,6 +140,16 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
+        if (memory_ != nullptr && instance >= memory_ && instance < get_element(size_))
+        {
+            // The key belongs to this map, so it could be moved by the insertion. Use a copy of it.
+            std::vector<uint8_t> key(content_->first().memory_size());
+            content_->first().copy_instance(key.data(), instance);
+            uint8_t* place = insert(key.data(), bounds);
+            content_->first().destroy_instance(key.data());
+            return place;
+        }
+
         if (memory_ == nullptr || size_ == capacity_)
         {
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 0e71f0d..e0f8f11 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -152,7 +152,17 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            // The instance to push can be an element of this sequence, in that case it will be moved by the realloc.
+            const bool own_element = memory_ != nullptr
+                    && instance >= memory_ && instance < memory_ + size_ * block_size_;
+            const size_t offset = own_element ? instance - memory_ : 0;
+
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+
+            if (own_element)
+            {
+                instance = memory_ + offset;
+            }
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
-- 
2.43.0


From 1235b02df6cf616316906042a8adcb3eed75b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 009/108] fix: allow copying unions without a selected member

---
 include/xtypes/UnionType.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..0d24128 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -273,11 +273,14 @@ public:
             uint8_t* target,
             const uint8_t* source) const override
     {
-        disc()->type().copy_instance(target, source);
         int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        disc()->type().construct_instance(target);
+        current_label(target, label);
+        if (0 < labels_.count(label)) // Otherwise, there isn't any member selected
+        {
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
-- 
2.43.0


From a8c1c74b428ccee0701a13625bdc5e4e298510bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 010/108] fix: destroy the member selected in the target when
 moving an union

---
 include/xtypes/UnionType.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 0d24128..661edbf 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -322,13 +322,19 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
-        int64_t label = current_label(disc()->type(), target);
+        if (initialized)
+        {
+            // The selected members of target and source can be different.
+            destroy_instance(target);
+        }
+
+        int64_t label = current_label(disc()->type(), source);
+        disc()->type().construct_instance(target);
+        current_label(target, label);
         if (0 < labels_.count(label))
         {
             Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+            member->type().move_instance(target + member->offset(), source + member->offset(), false);
         }
     }
 
-- 
2.43.0


From f29232c7aad9c500072475ff1373c5bac03008ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 011/108] fix: compare and hash the selected member of an union

---
 include/xtypes/UnionType.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 661edbf..4880961 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -354,11 +354,11 @@ public:
             const uint8_t* instance,
             const uint8_t* other_instance) const override
     {
-        bool result = disc()->type().compare_instance(instance, other_instance);
+        int64_t label = current_label(disc()->type(), instance);
+        bool result = label == current_label(disc()->type(), other_instance);
 
         if (result)
         {
-            int64_t label = current_label(disc()->type(), instance);
             if (0 < labels_.count(label))
             {
                 Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
@@ -460,9 +460,10 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
-- 
2.43.0


From 6039c8966ebcb44159874ee3ed796a05f317cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 012/108] fix: support enumerations of 8 and 16 bits and
 aliased ones as union discriminators

---
 include/xtypes/UnionType.hpp | 75 ++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 4880961..e018c32 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -525,9 +525,22 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
+            // The associated type is identified by its size
+            [[maybe_unused]] bool allowed = false;
+            if (type->memory_size() == sizeof(uint8_t))
+            {
+                allowed = static_cast<EnumerationType<uint8_t>*>(type)->is_allowed_value(static_cast<uint8_t>(label));
+            }
+            else if (type->memory_size() == sizeof(uint16_t))
+            {
+                allowed = static_cast<EnumerationType<uint16_t>*>(type)->is_allowed_value(static_cast<uint16_t>(label));
+            }
+            else
+            {
+                allowed = static_cast<EnumerationType<uint32_t>*>(type)->is_allowed_value(static_cast<uint32_t>(label));
+            }
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                allowed,
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -625,10 +638,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
-                current_label(instance, new_value);
+                current_label(instance, current_label(type, label_instance));
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -738,10 +748,19 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                // The associated type is identified by its size
+                if (disc_->type().memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                }
+                else if (disc_->type().memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                }
+                else
+                {
+                    *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -832,9 +851,19 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
-                disc_value = shrink_label(value, type.memory_size());
+                // The associated type is identified by its size
+                if (type.memory_size() == sizeof(uint8_t))
+                {
+                    disc_value = *reinterpret_cast<const uint8_t*>(instance);
+                }
+                else if (type.memory_size() == sizeof(uint16_t))
+                {
+                    disc_value = *reinterpret_cast<const uint16_t*>(instance);
+                }
+                else
+                {
+                    disc_value = *reinterpret_cast<const uint32_t*>(instance);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -1111,7 +1140,6 @@ protected:
                     break;
                     case TypeKind::ENUMERATION_TYPE:
                     {
-                        // TODO: If other enumeration types are added, switch again.
                         uint32_t value = std::strtoull(label.c_str(), nullptr, base);
                         if (value == 0)
                         {
@@ -1121,9 +1149,22 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& enum_type = disc_->type().kind() == TypeKind::ALIAS_TYPE
+                                        ? static_cast<const AliasType&>(disc_->type()).rget()
+                                        : disc_->type();
+                                // The associated type is identified by its size
+                                if (enum_type.memory_size() == sizeof(uint8_t))
+                                {
+                                    value = static_cast<const EnumerationType<uint8_t>&>(enum_type).value(label);
+                                }
+                                else if (enum_type.memory_size() == sizeof(uint16_t))
+                                {
+                                    value = static_cast<const EnumerationType<uint16_t>&>(enum_type).value(label);
+                                }
+                                else
+                                {
+                                    value = static_cast<const EnumerationType<uint32_t>&>(enum_type).value(label);
+                                }
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From ddf8d3837294dfe5568de80440916510139d4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 013/108] fix: accessing the selected member of an union keeps
 its discriminator

---
 include/xtypes/DynamicData.hpp | 5 ++++-
 include/xtypes/UnionType.hpp   | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 97019e4..c98c353 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -690,7 +690,10 @@ protected:
                 xtypes_assert(member_name == union_type.get_current_selection(instance_).name(),
                         "Cannot retrieve a non-selected case member.");
             }
-            union_type.select_case(instance_, member_name);
+            else
+            {
+                union_type.select_case(instance_, member_name);
+            }
         }
 
         const Member& member = aggregation.member(member_name);
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index e018c32..965ccfd 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -924,8 +924,12 @@ protected:
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
             if (member->name() == case_member_name)
             {
-                activate_member(instance, member);
-                current_label(instance, pair.first);
+                int64_t label = current_label(disc()->type(), instance);
+                if (labels_.count(label) == 0 || labels_.at(label) != case_member_name)
+                {
+                    activate_member(instance, member);
+                    current_label(instance, pair.first);
+                }
                 return true;
             }
         }
-- 
2.43.0


From 4a2372d54cfbe71394e6bd206495bbc998bc3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 014/108] fix: check the discriminator set in an union and
 build its member if needed

---
 include/xtypes/UnionType.hpp | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 965ccfd..d365e94 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -893,27 +893,61 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
-        if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+        const size_t disc_size = disc()->type().memory_size();
+        const int64_t label = shrink_label(value, disc_size);
+        if (labels_.count(label) == 0 || (value != label && value != expand_label(label)))
         {
-            return false;
+            return false; // The value isn't a label of any member.
         }
 
         // Retrieve current label.
         int64_t current_value = current_label(disc()->type(), instance);
 
-        if (0 < labels_.count(current_value) &&
-                0 != labels_.at(current_value).compare(labels_.at(
-                    value)))
+        if (0 < labels_.count(current_value))
         {
-            xtypes_assert(false, "Cannot switch member using direct disciminator value.");
-            return false;
+            if (0 != labels_.at(current_value).compare(labels_.at(label)))
+            {
+                xtypes_assert(false, "Cannot switch member using direct disciminator value.");
+                return false;
+            }
+        }
+        else
+        {
+            // There wasn't any selected member, so it must be built.
+            const Member& selected = AggregationType::member(labels_.at(label));
+            selected.type().construct_instance(instance + selected.offset());
         }
 
-        current_label(instance, value);
+        current_label(instance, label);
         return true;
     }
 
+    /// \brief This method returns the value represented by a shrunk label.
+    /// \returns The label with its sign if the discriminator is signed, the same label otherwise.
+    int64_t expand_label(
+            int64_t label) const
+    {
+        const DynamicType& type = disc()->type().kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(disc()->type()).rget()
+                : disc()->type();
+
+        switch (type.kind())
+        {
+            case TypeKind::INT_8_TYPE:
+                return static_cast<int8_t>(label);
+            case TypeKind::INT_16_TYPE:
+                return static_cast<int16_t>(label);
+            case TypeKind::INT_32_TYPE:
+                return static_cast<int32_t>(label);
+            case TypeKind::CHAR_8_TYPE:
+                return static_cast<char>(label);
+            case TypeKind::WIDE_CHAR_TYPE:
+                return static_cast<wchar_t>(label);
+            default:
+                return label;
+        }
+    }
+
     /// \brief This method switches the current selected case member by its name.
     bool select_case(
             uint8_t* instance,
-- 
2.43.0


From 98b0a13d28a4716c31d490a47eed2d63543bdb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 015/108] fix: retrieve the sign of the labels of an union

---
 include/xtypes/UnionType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index d365e94..a0dc79c 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -206,7 +206,7 @@ public:
         {
             if (pair.second == member && pair.first != default_value_)
             {
-                result.push_back(pair.first);
+                result.push_back(expand_label(pair.first));
             }
         }
         return result;
-- 
2.43.0


From d4d137672ab09b054fcb2cd9352fb493688babe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 016/108] fix: convert the selected member of an union from its
 own type

---
 include/xtypes/UnionType.hpp | 72 +++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index a0dc79c..44a26e4 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -25,6 +25,7 @@
 
 #include <string>
 #include <map>
+#include <algorithm>
 #include <vector>
 #include <regex>
 #include <cwchar>
@@ -286,35 +287,64 @@ public:
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const AggregationType& struct_type = static_cast<const AggregationType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
-        const UnionType& other_union = static_cast<const UnionType&>(other);
 
-        Member* disc_ = disc();
-        disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
-        int64_t label = current_label(disc_->type(), target);
-        if (0 < labels_.count(label))
+        const UnionType& other_union = static_cast<const UnionType&>(other);
+        const int64_t other_label = other_union.current_label(other_union.disc()->type(), source);
+        const auto other_it = other_union.labels_.find(other_label);
+
+        if (other_it != other_union.labels_.end())
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().copy_instance_from_type(
-                target + member->offset(),
-                source + member->offset(),
-                member->type());
+            // Compatible unions have their members in the same order
+            for (size_t idx = 1; idx < members().size() && idx < other_union.members().size(); ++idx)
+            {
+                const Member& member = members()[idx];
+                const Member& other_member = other_union.members()[idx];
+                if (other_member.name() == other_it->second)
+                {
+                    // Keep the label if it is possible, otherwise use one of the selected member
+                    int64_t label = shrink_label(other_union.expand_label(other_label), disc()->type().memory_size());
+                    const auto it = labels_.find(label);
+                    if (it == labels_.end() || it->second != member.name()
+                            || other_label == other_union.default_value_)
+                    {
+                        label = std::find_if(labels_.begin(), labels_.end(),
+                                        [&](const std::pair<const int64_t, std::string>& pair)
+                                        {
+                                            return pair.second == member.name();
+                                        })->first;
+                    }
+
+                    disc()->type().construct_instance(target);
+                    current_label(target, label);
+                    member.type().copy_instance_from_type(
+                        target + member.offset(),
+                        source + other_member.offset(),
+                        other_member.type());
+                    return;
+                }
+            }
         }
+
+        construct_instance(target); // The source doesn't have any selected member available in this union.
     }
 
     virtual void move_instance(
-- 
2.43.0


From 364aad1e1ff79f4338e2985f7d8c90173f4672f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 017/108] fix: do not modify an union when a second default
 member is rejected

---
 include/xtypes/UnionType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 44a26e4..2cb47c2 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -97,6 +97,7 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(!is_default || default_ == invalid_value_, "Cannot set more than one case member as default.");
         // Check labels
         for (T label : labels)
         {
@@ -138,7 +139,6 @@ public:
 
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
             default_ = first_label;
             if (default_ == default_value_)
             {
-- 
2.43.0


From b89b2abafb909593d2e1b8b3974b4a1d88059067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 018/108] fix: do not use a label of an union as the value for
 no selected member

---
 include/xtypes/UnionType.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 2cb47c2..550d2ce 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -137,6 +137,17 @@ public:
             }
         }
 
+        // The value used when there isn't any member selected cannot be a label.
+        const bool has_default = default_ != invalid_value_;
+        while (labels_.count(invalid_value_) != 0)
+        {
+            --invalid_value_;
+        }
+        if (!has_default)
+        {
+            default_ = invalid_value_;
+        }
+
         if (is_default)
         {
             default_ = first_label;
@@ -1253,7 +1264,7 @@ private:
     size_t memory_size_;
     // Direct access
     const int64_t default_value_;
-    const int64_t invalid_value_;
+    int64_t invalid_value_;
     int64_t default_;
     // Aux memory_size_ calculations
     size_t maximum_case_member_memory_;
-- 
2.43.0


From 4adc0cf02f68fdab45006ddaa71a34d7dcfc272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 019/108] fix: keep the type and the next value of an
 enumeration in its copies

---
 include/xtypes/EnumerationType.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..982cd64 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -71,6 +71,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     T next_value_ = T();
 
 };
-- 
2.43.0


From e59f10e43c7082e63e48cecac5881d983d0237a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 020/108] fix: make EnumerationType::default_value() compile

---
 include/xtypes/EnumerationType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index 982cd64..f3c4280 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -57,7 +57,7 @@ public:
         else
         {
             auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            return it->second;
         }
     }
 
-- 
2.43.0


From ae30ec8c6e2c580229cd3dcde46afbcb1432f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 021/108] fix: do not accept more enumerators after the maximum
 value of an enumeration

---
 include/xtypes/EnumerationType.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index f3c4280..741feb7 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -33,8 +33,9 @@ public:
             const std::string& name,
             T value)
     {
-        // New values must be always greater than the previous ones
-        xtypes_assert(value >= next_value_,
+        // New values must be always greater than the previous ones.
+        // After adding the maximum value of T, next_value_ overflows to 0 and there aren't more values available.
+        xtypes_assert(value >= next_value_ && (next_value_ != T() || this->values_.empty()),
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
         EnumeratedType<T>::insert_enumerator(name, value);
         next_value_ = value + 1;
-- 
2.43.0


From 97ed971f465a7344602847ac3a19090683619349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 022/108] fix: read enumerations of 8 and 16 bits with their
 size when converting them

---
 include/xtypes/PrimitiveType.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..ff36fce 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -171,9 +171,23 @@ protected:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
             case TypeKind::UINT_32_TYPE:
-            case TypeKind::ENUMERATION_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
+            case TypeKind::ENUMERATION_TYPE:
+                // The type associated to the enumeration is identified by its size
+                if (other.memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                }
+                else if (other.memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                }
+                else
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
             case TypeKind::UINT_64_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint64_t*>(source);
                 break;
-- 
2.43.0


From c7a646e226b3868423422ebecad3cc2c7208ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 023/108] fix: make symmetric the consistency between primitive
 and enumerated types

---
 include/xtypes/PrimitiveType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index ff36fce..b23cc3a 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -252,6 +252,11 @@ protected:
             return other.is_compatible(*this);
         }
 
+        if (other.is_enumerated_type())
+        {
+            return other.is_compatible(*this);
+        }
+
         if (!other.is_primitive_type())
         {
             return TypeConsistency::NONE;
-- 
2.43.0


From 9321976a22cfa1ab8abab25d8155419f34947cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 024/108] fix: compare the members of a structure of one member
 with the ones of a bigger structure

---
 include/xtypes/StructType.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..4a50c1e 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -194,7 +194,9 @@ public:
             return is_compatible(other_alias.rget());
         }
 
-        if (members().size() == 1) // Resolve one-member struct compatibilty
+        if (members().size() == 1 // Resolve one-member struct compatibilty
+                && (other.kind() != TypeKind::STRUCTURE_TYPE
+                || static_cast<const StructType&>(other).members().size() == 1))
         {
             return other.is_compatible(members().at(0).type());
         }
-- 
2.43.0


From cd4a8d9f14055714fbac5b92f775730e24c5f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 025/108] fix: do not increment a member iterator past its end

---
 include/xtypes/StructType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 4a50c1e..1591de5 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -142,12 +142,12 @@ public:
                     target + member.offset(),
                     source + other_member->offset(),
                     other_member->type());
+                other_member++;
             }
             else
             {
                 member.type().construct_instance(target + member.offset());
             }
-            other_member++;
         }
     }
 
-- 
2.43.0


From 336440dacfd9eabf591c69d76ac48c72ceaeeaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 026/108] fix: convert all the elements of an array

---
 include/xtypes/ArrayType.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..6627a33 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -160,7 +160,7 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().kind() != other_array.content_type().kind() || content_type().is_constructed_type())
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
@@ -170,10 +170,15 @@ public:
                     other_array.content_type());
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when both types are the same primitive
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        for (uint32_t i = uint32_t(min_dimension); i < dimension_; i++) // Elements not present in the source
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
-- 
2.43.0


From 303262c13569e20adea545cdb72ac32170883316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 027/108] fix: convert the elements of sequences whose
 primitive contents have the same size

---
 include/xtypes/SequenceInstance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index e0f8f11..3a02ddc 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -282,7 +282,7 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->kind() != other.content_->kind() || content_->is_constructed_type())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
@@ -293,7 +293,7 @@ private:
                     *other.content_);
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when the type is primitive of the same kind
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
-- 
2.43.0


From 22c0b577518c09c81e4c57bf7261128a60ac60c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 028/108] fix: hash the elements of a sequence

---
 include/xtypes/SequenceType.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3be6830..3190c1e 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -234,22 +234,15 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        const SequenceInstance& sequence = *reinterpret_cast<const SequenceInstance*>(c_instance);
+        if (sequence.size() > 0)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            uint64_t h = content_type().hash(sequence[0]);
+            for (uint32_t i = 1; i < sequence.size(); ++i)
             {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
+                Instanceable::hash_combine(h, content_type().hash(sequence[i]));
             }
+            return h;
         }
         return 0;
     }
-- 
2.43.0


From b07134c3770fd810ca59e00b99d09d6cd3ed7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 029/108] fix: use the offset of the source when converting the
 second element of a pair

---
 include/xtypes/PairType.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..9ac883b 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,10 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        second_->copy_instance_from_type(
+            target + first_->memory_size(),
+            source + pair.first().memory_size(),
+            pair.second());
     }
 
     void move_instance(
-- 
2.43.0


From e7423b24a30ce2bc0b59dd63f1e1da386bfb205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 030/108] fix: convert the keys and the values of a map to the
 ones of the target type

---
 include/xtypes/MapInstance.hpp | 30 +++++++++++++++++++++++-------
 include/xtypes/MapType.hpp     |  5 ++++-
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 0aca15e..d27c392 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <vector>
 
 namespace eprosima {
 namespace xtypes {
@@ -73,21 +74,36 @@ public:
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map.
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
-        , block_size_(content_->memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : MapInstance(content, bounds)
     {
-        init_memory(memory_, capacity_);
+        const PairType& other_content = *other.content_;
+        const size_t key_size = content_->first().memory_size();
 
-        if (memory_ != nullptr)
+        // The order of the converted keys can be different, so they must be inserted one by one.
+        for (uint32_t i = 0; i < other.size_ && (bounds == 0 || size_ < bounds); ++i)
         {
-            copy_content(other, size_);
+            const uint8_t* source = other.get_element(i);
+            std::vector<uint8_t> key(key_size);
+            content_->first().copy_instance_from_type(key.data(), source, other_content.first());
+
+            if (!contains_key(key.data()))
+            {
+                uint8_t* value = insert(key.data(), bounds) + key_size;
+                content_->second().destroy_instance(value);
+                content_->second().copy_instance_from_type(
+                    value,
+                    source + other_content.first().memory_size(),
+                    other_content.second());
+            }
+
+            content_->first().destroy_instance(key.data());
         }
     }
 
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 59dec95..31f9280 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -115,7 +115,10 @@ public:
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(
+            *reinterpret_cast<const MapInstance*>(source),
+            static_cast<const PairType&>(content_type()),
+            bounds());
     }
 
     virtual void move_instance(
-- 
2.43.0


From 90e12798f43056f6850a3ee576686cd60318a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 031/108] fix: insert the whole pair in a map and reject
 duplicated keys without throwing

---
 include/xtypes/DynamicData.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index c98c353..e4018f0 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -991,7 +991,24 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        if (map.has_key(instance_, p_instance(data)))
+        {
+            return false;
+        }
+
+        // The pair is copied because it can belong to this map
+        const PairType& pair = static_cast<const PairType&>(map.content_type());
+        std::vector<uint8_t> copy(pair.memory_size());
+        pair.copy_instance(copy.data(), p_instance(data));
+        uint8_t* place = map.insert_instance(instance_, copy.data());
+        if (place != nullptr)
+        {
+            uint8_t* value = place + pair.first().memory_size();
+            pair.second().destroy_instance(value);
+            pair.second().copy_instance(value, copy.data() + pair.first().memory_size());
+        }
+        pair.destroy_instance(copy.data());
+        return place != nullptr;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
-- 
2.43.0


From f928a8bb28c74058c7f669d72ef761071cbf4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 032/108] fix: reject truncated text and keep partially filled
 buffers out of the converted text

---
 include/xtypes/StringConversion.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..8b11d38 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -105,6 +105,7 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
     // iterate if buffer gets filled
     while (processing)
     {
+        const in* from_prev = from_next;
         codecvt_base::result res = choose::translate(
              conv_facet,
              mb,
@@ -129,8 +130,13 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
+                // without progress the input ends in an incomplete character
+                if(from_next == from_prev && to_next == buffer)
+                {
+                    throw std::range_error("encountered an incomplete character that could not be converted");
+                }
                 // insert current buffer content
-                output.append(buffer, buffer_size);
+                output.append(buffer, to_next - buffer);
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 8f992fe6eefadea5bf79c3411aa17ab66d1903a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 033/108] fix: render wide characters and wide strings with all
 their code points

---
 include/xtypes/DynamicDataImpl.hpp | 64 +++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..9d638a5 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -121,6 +121,41 @@ namespace xtypes {
     }\
 }
 
+namespace detail {
+
+inline std::string to_utf8(
+        const std::u16string& text)
+{
+    auto aux = code_conversion_tool<XTYPES_CHAR>(text);
+    return std::string(aux.begin(), aux.end());
+}
+
+inline std::string to_utf8(
+        const std::wstring& text)
+{
+    std::u16string aux;
+    for (wchar_t wide : text)
+    {
+        const uint32_t code = uint32_t(wide);
+        if (code > 0x10FFFF)
+        {
+            throw std::range_error("encountered a character that could not be converted");
+        }
+        else if (code > 0xFFFF)
+        {
+            aux += char16_t(0xD800 + ((code - 0x10000) >> 10));
+            aux += char16_t(0xDC00 + ((code - 0x10000) & 0x3FF));
+        }
+        else
+        {
+            aux += char16_t(code);
+        }
+    }
+    return to_utf8(aux);
+}
+
+} // namespace detail
+
 inline std::string ReadableDynamicDataRef::to_string() const
 {
     std::stringstream ss;
@@ -145,13 +180,13 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
             case TypeKind::CHAR_16_TYPE:
+                ss << "<" << type_name << ">  "
+                    << detail::to_utf8(std::u16string(1, node.data().value<char16_t>()));
+                break;
             case TypeKind::WIDE_CHAR_TYPE:
-                {
-                    ss << "<" << type_name << ">  ";
-                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
-                    ss << std::string(aux.begin(), aux.end());
-                    break;
-                }
+                ss << "<" << type_name << ">  "
+                    << detail::to_utf8(std::wstring(1, node.data().value<wchar_t>()));
+                break;
             case TypeKind::INT_8_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int8_t>();
                 break;
@@ -189,20 +224,11 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "<" << type_name << ">  " << node.data().value<std::string>();
                 break;
             case TypeKind::WSTRING_TYPE:
-                {
-                    ss << "<" << type_name << ">  ";
-                    auto aux = node.data().value<std::wstring>();
-                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(std::u16string(aux.begin(), aux.end()));
-                    ss << std::string(aux2.begin(), aux2.end());
-                    break;
-                }
+                ss << "<" << type_name << ">  " << detail::to_utf8(node.data().value<std::wstring>());
+                break;
             case TypeKind::STRING16_TYPE:
-                {
-                    ss << "<" << type_name << ">  ";
-                    auto aux = code_conversion_tool<XTYPES_CHAR>(node.data().value<std::u16string>());
-                    ss << std::string(aux.begin(), aux.end());
-                    break;
-                }
+                ss << "<" << type_name << ">  " << detail::to_utf8(node.data().value<std::u16string>());
+                break;
             case TypeKind::ARRAY_TYPE:
                 ss << "<" << type_name << ">";
                 break;
-- 
2.43.0


From e625baff59cec9ca83549f577c2da21a4e3bf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 034/108] fix: render the value of the enumerations

---
 include/xtypes/DynamicDataImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 9d638a5..a3725ac 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -242,7 +242,7 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "Structure: <" << type_name << ">";
                 break;
             case TypeKind::ENUMERATION_TYPE:
-                ss << "Enumeration: <" << type_name << ">";
+                ss << "Enumeration: <" << type_name << ">  " << node.data().cast<uint32_t>();
                 break;
             default:
                 ss << "Unsupported type: " << type_name;
-- 
2.43.0


From bb1a946cee2e89dbd304214262915e1f3892695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 035/108] fix: cast wide and 16-bit strings to their text

---
 include/xtypes/DynamicDataImpl.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index a3725ac..1c962de 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -300,20 +300,18 @@ inline std::string ReadableDynamicDataRef::cast<std::string>() const
             std::string temp = *this;
             return temp;
         }
-        default:
-            DYNAMIC_DATA_BASICTYPE_SWITCH(DYNAMIC_DATA_CAST, );
-        /* // TODO
         case TypeKind::WSTRING_TYPE:
         {
             std::wstring temp = *this;
-            return reinterpret_cast<T>(temp);
+            return detail::to_utf8(temp);
         }
         case TypeKind::STRING16_TYPE:
         {
             std::u16string temp = *this;
-            return reinterpret_cast<T>(temp);
+            return detail::to_utf8(temp);
         }
-        */
+        default:
+            DYNAMIC_DATA_BASICTYPE_SWITCH(DYNAMIC_DATA_CAST, );
     }
     return std::string();
 }
-- 
2.43.0


From b142822fa7dae1fccfe900e7ef2e920cc4641fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 036/108] fix: do not create empty submodules when looking for
 unknown ones

---
 include/xtypes/idl/Module.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..d5fca60 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,13 +117,17 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        auto it = inner_.find(submodule);
+        xtypes_assert(it != inner_.end(), "Cannot find submodule '" + submodule + "'.");
+        return *it->second;
     }
 
     const Module& operator [] (
             const std::string& submodule) const
     {
-        return *inner_.at(submodule);
+        auto it = inner_.find(submodule);
+        xtypes_assert(it != inner_.end(), "Cannot find submodule '" + submodule + "'.");
+        return *it->second;
     }
 
     const std::string& name() const
-- 
2.43.0


From 1a8396ad2c02a5153a28c914383b313f58262ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 037/108] fix: solve the scope when checking if an enumeration
 exists

---
 include/xtypes/idl/Module.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index d5fca60..b0fc6dd 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -490,7 +490,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
-- 
2.43.0


From d76eb74f6290f23d93e03db063e185a23f02a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 038/108] fix: do not look for a scoped name outside of its
 scope

---
 include/xtypes/idl/Module.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index b0fc6dd..b799225 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -770,7 +770,8 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        // The outer modules are only considered for names without scope
+        if (outer_ != nullptr && first)
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From b3a3ae261b9c854996378677c9b55010126310d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 039/108] fix: keep the type found in a submodule and do not
 rename a missing type

---
 include/xtypes/idl/Module.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index b799225..a6741ff 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -615,6 +615,10 @@ public:
             for (auto [key, mod]: inner_)
             {
                 ret_type = mod.get()->type(name, recursive);
+                if (ret_type.get() != nullptr)
+                {
+                    break;
+                }
             }
         }
 
@@ -649,7 +653,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
-- 
2.43.0


From d007b513c7dfd3dd3e48c4cd529359ef37a450ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 040/108] fix: keep the name of a type refused by a module

---
 include/xtypes/idl/Module.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index a6741ff..02de970 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -235,6 +235,10 @@ public:
         auto result = structs_.emplace(
             name,
             Type(*this, struct_type));
+        if (!result.second)
+        {
+            struct_type.name(name); // Refused: keep the type as it was
+        }
         return result.second;
     }
 
@@ -319,6 +323,10 @@ public:
         auto result = unions_.emplace(
             name,
             Type(*this, union_type));
+        if (!result.second)
+        {
+            union_type.name(name); // Refused: keep the type as it was
+        }
         return result.second;
     }
 
@@ -591,7 +599,12 @@ public:
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-        return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
+        auto result = aliases_.emplace(name, Type(*this, AliasType(alias)));
+        if (!result.second)
+        {
+            alias.name(name); // Refused: keep the type as it was
+        }
+        return result.second;
     }
 
     bool add_alias(
-- 
2.43.0


From 52d48e207a5c3ad06172157a509db3688bbea7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 041/108] fix: look for the aliases in their module only when
 creating them and reject the missing ones

---
 include/xtypes/idl/Module.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 02de970..61b0ea2 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -552,7 +552,9 @@ public:
         PairModuleSymbol module = resolve_scope(name);
         xtypes_assert(module.first != nullptr, "Cannot solve scope for alias '" + name + "'.");
 
-        return static_cast<const AliasType&>(*module.first->aliases_.at(module.second).get());
+        auto it = module.first->aliases_.find(module.second);
+        xtypes_assert(it != module.first->aliases_.end(), "Cannot find alias '" + name + "'.");
+        return static_cast<const AliasType&>(*it->second.get());
     }
 
     AliasType& alias(
@@ -562,7 +564,9 @@ public:
         PairModuleSymbol module = resolve_scope(name);
         xtypes_assert(module.first != nullptr, "Cannot solve scope for alias '" + name + "'.");
 
-        return static_cast<AliasType&>(const_cast<DynamicType&>(*module.first->aliases_.at(module.second).get()));
+        auto it = module.first->aliases_.find(module.second);
+        xtypes_assert(it != module.first->aliases_.end(), "Cannot find alias '" + name + "'.");
+        return static_cast<AliasType&>(const_cast<DynamicType&>(*it->second.get()));
     }
 
     bool has_alias(
@@ -583,7 +587,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
-- 
2.43.0


From 63650519991eeb3481874499abaec83ad23e5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 042/108] fix: compare the name and the scope of both nodes of
 the dependency tree

---
 include/xtypes/idl/generator_deptree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 0e6f84d..e17149c 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -348,9 +348,9 @@ public:
             const DependencyNode& other) const
     {
         return (kind_ == other.kind_ &&
-                node_.first == node_.first &&
+                node_.first == other.node_.first &&
                 node_.second.get() == other.node_.second.get() &&
-                node_.second.parent().scope() == node_.second.parent().scope());
+                node_.second.parent().scope() == other.node_.second.parent().scope());
     }
 
     /// \brief Not equal comparison operator overload between two DependencyNode objects.
-- 
2.43.0


From 2c62fd684edad401ec3105995d8d2dcc222adc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 043/108] fix: declare the dependencies of any kind before
 their use in the generated IDL

---
 include/xtypes/idl/generator_deptree.hpp | 59 ++++++++++++++----------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index e17149c..231ba56 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -781,12 +781,9 @@ public:
     /// \brief Set a dependency between two DependencyNodes.
     /// \param[in] dependent The DependencyNode objects which depends on master.
     /// \param[in] master Name of the DependencyNode to be found in the tree.
-    /// \param[in] dep_list A ModuleElement map to search within this DependencyModule.
-    /// before triggering search in the whole tree.
     void set_dependency(
             DependencyNode& dependent,
-            const std::string& master,
-            const ModuleElementKind& kind)
+            const std::string& master)
     {
         if (dependent.name() == master) // Cannot add dependency to itself
         {
@@ -816,11 +813,10 @@ public:
         {
             for (auto& node : node_set_)
             {
-                if (node.kind() != kind)
-                {
-                    continue;
-                }
-                else if (node.name() == unscoped_master)
+                // The constants are not dependencies of any other definition
+                if (node.kind() != ModuleElementKind::xCONST
+                        && node.name() == unscoped_master
+                        && node != dependent)
                 {
                     dependent.set_ancestor(node);
                     break;
@@ -877,7 +873,7 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master, node.kind());
+            set_dependency(node, master);
         }
     }
 
@@ -890,7 +886,10 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                set_dynamic_type_dependency(node, *alias, alias->name());
+                alias->for_each([&](const DynamicType::TypeNode& tnode)
+                {
+                    set_dynamic_type_dependency(node, tnode.type(), tnode.type().name());
+                });
                 break;
             }
 
@@ -1020,6 +1019,29 @@ public:
         }
     }
 
+    /// \brief Generate the IDL sentences of the ancestors of a DependencyNode, from the oldest one.
+    /// \param[in] node DependencyNode whose ancestors will be generated.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \returns An string with the sentences of those ancestors that were not generated yet.
+    std::string generate_idl_ancestors(
+            const DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl = nullptr) const
+    {
+        std::stringstream ss;
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            if (!ancestor.get().iterated())
+            {
+                ss << generate_idl_ancestors(ancestor.get(), tabs, module_idl);
+                ss << ancestor.get().generate_idl_sentence(tabs, module_idl) << std::endl;
+            }
+        }
+
+        return ss.str();
+    }
+
     /// \brief Generate IDL sentence for the DependencyNode contents of this module.
     /// \param[in] tabs Padding relative to module's scope.
     /// \param[in] is_child If set, generate IDL sentence only for DependencyNode that has as child
@@ -1033,19 +1055,7 @@ public:
 
         for (auto& node : node_set_)
         {
-            if (node.has_ancestors())
-            {
-                for (const auto& ancestor : node.ancestors())
-                {
-                    std::stringstream ss_ancestor;
-                    ss_ancestor << ancestor.get().generate_idl_sentence(tabs, struct_idl);
-
-                    if (ss_ancestor.rdbuf()->in_avail())
-                    {
-                        ss << ss_ancestor.str() << std::endl;
-                    }
-                }
-            }
+            ss << generate_idl_ancestors(node, tabs, struct_idl);
 
             std::stringstream ss_node;
             ss_node << node.generate_idl_sentence(tabs, struct_idl);
@@ -1160,6 +1170,7 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
+                    ss << outer->generate_idl_ancestors(onode, tabs, module_idl);
                     ss << outer->generate_idl_sentence(onode, tabs, module_idl);
 
                     if (!outer->all_nodes_iterated())
-- 
2.43.0


From 780a5cb42811fdd72e67b5ae969438712d45f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 044/108] fix: generate the negative labels of an union

---
 include/xtypes/idl/generator.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..87c94cc 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -249,12 +249,15 @@ inline std::string label_value(
             return ss.str();
         }
         case TypeKind::INT_8_TYPE:
-        case TypeKind::UINT_8_TYPE:
         case TypeKind::INT_16_TYPE:
-        case TypeKind::UINT_16_TYPE:
         case TypeKind::INT_32_TYPE:
-        case TypeKind::UINT_32_TYPE:
         case TypeKind::INT_64_TYPE:
+        {
+            return std::to_string(static_cast<int64_t>(value));
+        }
+        case TypeKind::UINT_8_TYPE:
+        case TypeKind::UINT_16_TYPE:
+        case TypeKind::UINT_32_TYPE:
         case TypeKind::UINT_64_TYPE:
         {
             return std::to_string(value);
-- 
2.43.0


From 915fb78ded7176c219dbde7446a51da4edaf7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 045/108] fix: check the type of the keys used to access to the
 elements of a map

---
 include/xtypes/DynamicData.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index e4018f0..4800405 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -957,6 +958,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
-- 
2.43.0


From 49f7a6e0aadb36d7505884fe3bf76147135be62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 046/108] fix: compare the content of two structures of one
 member

---
 include/xtypes/StructType.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 1591de5..b1596b6 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -194,11 +194,18 @@ public:
             return is_compatible(other_alias.rget());
         }
 
-        if (members().size() == 1 // Resolve one-member struct compatibilty
-                && (other.kind() != TypeKind::STRUCTURE_TYPE
-                || static_cast<const StructType&>(other).members().size() == 1))
+        if (members().size() == 1) // Resolve one-member struct compatibilty
         {
-            return other.is_compatible(members().at(0).type());
+            if (other.kind() != TypeKind::STRUCTURE_TYPE)
+            {
+                return other.is_compatible(members().at(0).type());
+            }
+
+            const StructType& struct_type = static_cast<const StructType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                return members().at(0).type().is_compatible(struct_type.members().at(0).type());
+            }
         }
 
         if (other.kind() != TypeKind::STRUCTURE_TYPE)
-- 
2.43.0


From 44818c17a80db6d1120cb55fad4e611909c96a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 047/108] fix: do not compare or copy the memory of empty
 collections

---
 include/xtypes/MapInstance.hpp      | 4 ++--
 include/xtypes/SequenceInstance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index d27c392..57bf21d 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -138,7 +138,7 @@ public:
         }
         else //optimization when the pair are both primitive
         {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            return size_ == 0 || std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
         }
     }
 
@@ -321,7 +321,7 @@ private:
                     *other.content_);
             }
         }
-        else //optimization when the pair are both primitive with same size
+        else if (min_size > 0) //optimization when the pair are both primitive with same size
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 3a02ddc..a60c5df 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -133,7 +133,7 @@ public:
         }
         else //optimization when the type is primitive
         {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            return size_ == 0 || std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
         }
     }
 
@@ -293,7 +293,7 @@ private:
                     *other.content_);
             }
         }
-        else //optimization when the type is primitive of the same kind
+        else if (min_size > 0) //optimization when the type is primitive of the same kind
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
-- 
2.43.0


From bb3bd8e53e58b4a9a64978fb9d062fc8e33395e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 048/108] fix: identify the keys of a map by their value, not
 only by their hash

---
 include/xtypes/MapInstance.hpp | 110 +++++++++++----------------------
 1 file changed, 37 insertions(+), 73 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 57bf21d..349f0ef 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -127,19 +127,16 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        for (uint32_t i = 0; i < size_; i++)
         {
-            bool comp = true;
-            for (uint32_t i = 0; i < size_; i++)
+            // The order of the keys that share the same hash depends on their insertion
+            const uint8_t* other_pair = other.find_place(get_element(i), true);
+            if (other_pair == nullptr || !content_->compare_instance(get_element(i), other_pair))
             {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
+                return false;
             }
-            return comp;
-        }
-        else //optimization when the pair are both primitive
-        {
-            return size_ == 0 || std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
         }
+        return true;
     }
 
     virtual ~MapInstance()
@@ -221,16 +218,12 @@ public:
 
     uint64_t map_hash() const
     {
-        if (size_ > 0)
+        uint64_t h = 0;
+        for (uint32_t i = 0; i < size_; ++i)
         {
-            uint64_t h = content_->hash(memory_);
-            for (uint32_t i = 1; i < size_; ++i)
-            {
-                Instanceable::hash_combine(h, content_->hash(get_element(i)));
-            }
-            return h;
+            h += content_->hash(get_element(i)); // It must not depend on the order of the pairs
         }
-        return 0;
+        return h;
     }
 
 private:
@@ -340,7 +333,7 @@ private:
                 if (overlap && check_overlap(target, source))
                 {
                     // Creating a place
-                    uint32_t to_move = size_ - get_key_index(source);
+                    uint32_t to_move = size_ - get_index(source);
                     for (uint32_t i = to_move; i > 0; --i)
                     {
                         content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, true);
@@ -357,7 +350,7 @@ private:
             }
             else //optimization when the pair are both primitive
             {
-                std::memmove(target, source, (size_ - get_key_index(source)) * block_size_);
+                std::memmove(target, source, (size_ - get_index(source)) * block_size_);
             }
         }
     }
@@ -377,7 +370,7 @@ private:
         xtypes_assert(
             size_ == 0 ||
             place == get_element(size_) ||     // Insert at the end
-            hash(instance) != hash(place),
+            !content_->first().compare_instance(place, instance),
             "Key already exists.");
         if (place != get_element(size_))
         {
@@ -390,71 +383,36 @@ private:
             const uint8_t* instance,
             bool exact = false) const
     {
-        uint64_t instance_hash = 0;
-        // Special case, it is empty
-        if (size_ == 0)
+        const uint64_t instance_hash = hash(instance);
+
+        // Binary search of the first key whose hash is not lower
+        size_t start = 0;
+        size_t end = size_;
+        while (start < end)
         {
-            if (exact)
+            size_t current = (start + end) / 2;
+            if (hash(get_element(current)) < instance_hash)
             {
-                return nullptr;
+                start = current + 1;
             }
             else
             {
-                return memory_;
+                end = current;
             }
         }
 
-        // Binary search by hash
-        uint64_t istart = 0;
-        uint64_t iend = size_;
-        uint64_t icurrent = (istart + iend) / 2;
-        uint8_t* start = get_element(0);
-        uint8_t* end = get_element(size_);
-        uint8_t* current = get_element(icurrent);
-
-        instance_hash = hash(instance);
-        uint64_t current_hash = hash(current);
-
-        while (icurrent != istart)
+        // Different keys can share the same hash
+        size_t index = start;
+        while (index < size_ && hash(get_element(index)) == instance_hash)
         {
-            if (instance_hash == current_hash)
-            {
-                return current;
-            }
-            else if (instance_hash > current_hash)
-            {
-                if (current == start)
-                {
-                    // The spot is "end"
-                    current = end;
-                    continue;
-                }
-                start = current;
-                istart = icurrent;
-            }
-            else
+            if (content_->first().compare_instance(get_element(index), instance))
             {
-                end = current;
-                iend = icurrent;
+                return get_element(index);
             }
-
-            icurrent = (istart + iend) / 2;
-            current = get_element(icurrent);
-            current_hash = hash(current);
+            ++index;
         }
 
-        if (instance_hash == current_hash)
-        {
-            return current;
-        }
-        else if (instance_hash < current_hash)
-        {
-            return exact ? nullptr : current;
-        }
-        else
-        {
-            return exact ? nullptr : end;
-        }
+        return exact ? nullptr : get_element(index);
     }
 
     uint8_t* get_element(
@@ -463,6 +421,12 @@ private:
         return memory_ + index * block_size_;
     }
 
+    size_t get_index(
+            const uint8_t* place) const
+    {
+        return (place - memory_) / block_size_;
+    }
+
     size_t get_key_index(
             const uint8_t* instance) const
     {
@@ -470,7 +434,7 @@ private:
         {
             uint8_t* place = find_place(instance, true);
             xtypes_assert(place != nullptr, "Key doesn't exists.");
-            return (place - memory_) / block_size_;
+            return get_index(place);
         }
         return 0;
     }
-- 
2.43.0


From 2e5f087a65f57a7629e65f0374e23a8d67badabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 049/108] fix: compare and hash floating point values instead
 of their memory

---
 include/xtypes/ArrayType.hpp        |  4 ++--
 include/xtypes/DynamicType.hpp      | 10 ++++++++++
 include/xtypes/PrimitiveType.hpp    | 12 ++++++++++++
 include/xtypes/SequenceInstance.hpp |  2 +-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 6627a33..da57dcb 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -218,7 +218,7 @@ public:
             const uint8_t* other_instance) const override
     {
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
+        if (content_type().is_constructed_type() || content_type().is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < dimension_; i++)
@@ -305,7 +305,7 @@ public:
         if (dimension_ > 0)
         {
             uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            if (content_type().is_constructed_type() || content_type().is_floating_point_type())
             {
                 uint64_t h = content_type().hash(instance);
                 for (size_t i = 1; i < dimension_; ++i)
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index fa633d8..705cdea 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -86,6 +86,16 @@ public:
         return (kind_& TypeKind::CONSTRUCTED_TYPE) != TypeKind::NO_TYPE;
     }
 
+    /// \brief check if this type is a floating point type.
+    /// The same value of these types can have several representations in memory (signed zeros, padding).
+    /// \returns true if is a floating point type
+    bool is_floating_point_type() const
+    {
+        return kind_ == TypeKind::FLOAT_32_TYPE
+                || kind_ == TypeKind::FLOAT_64_TYPE
+                || kind_ == TypeKind::FLOAT_128_TYPE;
+    }
+
     /// \brief check if this type is enumerated
     /// (has the corresponding bit of TypeKind::ENUMERATED_TYPE in its kind).
     /// \returns true if is enumerated
diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index b23cc3a..db65fe1 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -22,6 +22,8 @@
 #include <xtypes/StructType.hpp>
 
 #include <cstring>
+#include <functional>
+#include <type_traits>
 
 namespace eprosima {
 namespace xtypes {
@@ -238,6 +240,16 @@ protected:
         return *reinterpret_cast<const T*>(instance) == *reinterpret_cast<const T*>(other_instance);
     }
 
+    virtual uint64_t hash(
+            const uint8_t* instance) const override
+    {
+        if (std::is_floating_point<T>::value) // Equal values can have different representations
+        {
+            return std::hash<T>()(*reinterpret_cast<const T*>(instance));
+        }
+        return DynamicType::hash(instance);
+    }
+
     virtual TypeConsistency is_compatible(
             const DynamicType& other) const override
     {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index a60c5df..3d8bbe8 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -122,7 +122,7 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        if (content_->is_constructed_type() || content_->is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
-- 
2.43.0


From 8d792e7d004458448f15e261b3d9d8725ebf5779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 050/108] fix: copy the type of a data instead of sharing one
 that can be modified later

---
 include/xtypes/DynamicData.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 4800405..98f70fe 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1363,7 +1363,8 @@ public:
     /// \param[in] type DynamicType from which the DynamicData is created.
     DynamicData(
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        // The type is copied: changes made later to the original one must not blow this object
+        : WritableDynamicDataRef(*DynamicType::Ptr(type), new uint8_t[type.memory_size()])
     {
         memset(instance_, 0, type.memory_size());
         type_->construct_instance(instance_);
@@ -1395,7 +1396,7 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, nullptr)
+        : WritableDynamicDataRef(*DynamicType::Ptr(type), nullptr)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
-- 
2.43.0


From fe80ebf228e292d6dd9e611765614fbf9bd1c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 051/108] fix: report the compatibility of a pair with a
 structure of one member in both directions

---
 include/xtypes/PairType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 9ac883b..4c864fc 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -166,6 +166,11 @@ public:
             return is_compatible(other_alias.rget());
         }
 
+        if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
+        {
+            return other.is_compatible(*this);
+        }
+
         bool check = other.kind() == TypeKind::PAIR_TYPE;
 
         if (check)
-- 
2.43.0


From 15ca7df59f0970719fee5ae8061e179776862040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 052/108] fix: release the memory of a data whose conversion is
 rejected

---
 include/xtypes/DynamicData.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 98f70fe..edb2516 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1403,7 +1403,15 @@ public:
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
         instance_ = new uint8_t[type.memory_size()];
         memset(instance_, 0, type.memory_size());
-        type_->copy_instance_from_type(instance_, p_instance(other), other.type());
+        try
+        {
+            type_->copy_instance_from_type(instance_, p_instance(other), other.type());
+        }
+        catch (...)
+        {
+            delete[] instance_; // The destructor is not called for an object that could not be built
+            throw;
+        }
         initialize_ = true;
     }
 
-- 
2.43.0


From c3240138faead36f6d2764a6277269e8da0987c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 053/108] fix: keep every place of a map constructed when the
 conversion of a value is rejected

---
 include/xtypes/MapInstance.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 349f0ef..b080475 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -97,10 +97,18 @@ public:
             {
                 uint8_t* value = insert(key.data(), bounds) + key_size;
                 content_->second().destroy_instance(value);
-                content_->second().copy_instance_from_type(
-                    value,
-                    source + other_content.first().memory_size(),
-                    other_content.second());
+                try
+                {
+                    content_->second().copy_instance_from_type(
+                        value,
+                        source + other_content.first().memory_size(),
+                        other_content.second());
+                }
+                catch (...)
+                {
+                    content_->second().construct_instance(value); // All the places must be constructed
+                    throw;
+                }
             }
 
             content_->first().destroy_instance(key.data());
-- 
2.43.0


From 28729ecc92bfbb053c6dc87a1341c630bed19020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 054/108] fix: keep the type of the iterator assigned

---
 include/xtypes/DynamicData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index edb2516..678695c 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -445,6 +445,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
-- 
2.43.0


From 9f36d80d6854f797d4f3a58bb890c7f6a7a71f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 055/108] fix: print 8-bit integers as numbers

---
 include/xtypes/DynamicDataImpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 1c962de..919543e 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -188,10 +188,10 @@ inline std::string ReadableDynamicDataRef::to_string() const
                     << detail::to_utf8(std::wstring(1, node.data().value<wchar_t>()));
                 break;
             case TypeKind::INT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<int8_t>();
+                ss << "<" << type_name << ">  " << int(node.data().value<int8_t>());
                 break;
             case TypeKind::UINT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<uint8_t>();
+                ss << "<" << type_name << ">  " << unsigned(node.data().value<uint8_t>());
                 break;
             case TypeKind::INT_16_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int16_t>();
-- 
2.43.0


From abeb7d7cf047e406eb697ceba45bca11992619d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 056/108] fix: do not look for the root inside a scoped name

---
 include/xtypes/idl/Module.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 61b0ea2..ae8f9bb 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -739,7 +739,14 @@ protected:
         {
             if (symbol_name.find("::") == 0) // Looking for root
             {
-                if (outer_ == nullptr) // We are the root, now go down.
+                if (!first) // Only the whole name can start at the root
+                {
+                    PairModuleSymbol pair;
+                    pair.first = nullptr;
+                    pair.second = original_name;
+                    return pair;
+                }
+                else if (outer_ == nullptr) // We are the root, now go down.
                 {
                     return resolve_scope(symbol_name.substr(2), original_name);
                 }
-- 
2.43.0


From 64340737db455c099b6d16f198e0cc39bd2e7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 057/108] fix: refuse aliases with a scoped name as any other
 definition

---
 include/xtypes/idl/Module.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index ae8f9bb..23c7fd7 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -600,6 +600,11 @@ public:
     bool add_alias(
             AliasType& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot add a symbol with scoped name.
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
@@ -614,6 +619,11 @@ public:
     bool add_alias(
             AliasType&& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot add a symbol with scoped name.
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-- 
2.43.0


From 306c1b7aac12086bd308d8f2c82afceb56d76e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 058/108] fix: write character and boolean constants as their
 IDL literals

---
 include/xtypes/idl/generator.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 87c94cc..c328835 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -465,7 +465,23 @@ inline std::string get_const_value(
         suffix = "'";
     }
 
-    ss << prefix << data.cast<std::string>() << suffix;
+    switch (data.type().kind())
+    {
+        case TypeKind::BOOLEAN_TYPE:
+            ss << (data.value<bool>() ? "TRUE" : "FALSE");
+            break;
+        case TypeKind::CHAR_8_TYPE:
+            ss << prefix << data.value<char>() << suffix;
+            break;
+        case TypeKind::CHAR_16_TYPE:
+            ss << prefix << detail::to_utf8(std::u16string(1, data.value<char16_t>())) << suffix;
+            break;
+        case TypeKind::WIDE_CHAR_TYPE:
+            ss << prefix << detail::to_utf8(std::wstring(1, data.value<wchar_t>())) << suffix;
+            break;
+        default:
+            ss << prefix << data.cast<std::string>() << suffix;
+    }
 
     return ss.str();
 }
-- 
2.43.0


From 535ef5dbfcd4ffcddbbd2a4b0ee0ef3322baa702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 059/108] fix: write the labels of a union switched by an alias
 of an enumeration

---
 include/xtypes/idl/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index c328835..3dcf915 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -223,7 +223,7 @@ inline std::string label_value(
 
     if (kind == TypeKind::ALIAS_TYPE)
     {
-        kind = static_cast<const AliasType&>(type).rget().kind();
+        return label_value(value, static_cast<const AliasType&>(type).get());
     }
 
     switch (kind)
-- 
2.43.0


From 69fffe09639855d654fa1fa5c547d64050891132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 060/108] fix: generate the modules needed by a definition
 before the definition

---
 include/xtypes/idl/generator_deptree.hpp | 54 +++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 231ba56..b6e0ddf 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -393,6 +393,7 @@ public:
             const Module& module,
             DependencyModule* outer)
         : iterated_(false)
+        , in_progress_(false)
         , module_(module)
         , d_root_(d_root)
         , d_outer_(outer)
@@ -413,6 +414,19 @@ public:
         iterated_ = iterated;
     }
 
+    /// \brief Check out if the IDL of this DependencyModule is already being generated.
+    /// \returns A boolean value indicating if its generation has started or not.
+    bool in_progress() const
+    {
+        return in_progress_;
+    }
+
+    /// \brief Set that the generation of this DependencyModule has started.
+    void set_in_progress()
+    {
+        in_progress_ = true;
+    }
+
     /// \brief Retrieve Module object referred by this DependencyModule.
     /// \returns A const reference to the Module.
     const Module& module() const
@@ -1080,6 +1094,7 @@ public:
 private:
 
     bool iterated_;
+    bool in_progress_;
     const Module& module_;
     const std::shared_ptr<DependencyModule>& d_root_;
     DependencyModule* d_outer_;
@@ -1147,6 +1162,7 @@ public:
             return std::string();
         }
 
+        dep_mod->set_in_progress();
         bool root = dep_mod->module().name().empty();
         std::stringstream ss;
 
@@ -1156,7 +1172,7 @@ public:
             for (const auto& ancestor : dep_mod->ancestors())
             {
                 DependencyModule* p_ancestor = ancestor.lock().get();
-                if (!p_ancestor->iterated())
+                if (!p_ancestor->iterated() && !p_ancestor->in_progress())
                 {
                     ss << generate_idl(p_ancestor, root ? 0 : tabs, module_idl) << std::endl;
                 }
@@ -1170,6 +1186,7 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
+                    ss << generate_parent_modules(onode, tabs, module_idl);
                     ss << outer->generate_idl_ancestors(onode, tabs, module_idl);
                     ss << outer->generate_idl_sentence(onode, tabs, module_idl);
 
@@ -1209,7 +1226,7 @@ public:
             {
                 for (const auto& parent : node.parent_modules())
                 {
-                    if (!parent.lock().get()->iterated())
+                    if (!parent.lock().get()->iterated() && !parent.lock().get()->in_progress())
                     {
                         ss << generate_idl(parent.lock().get(), root ? 0 : tabs + 1, module_idl) << std::endl;
                     }
@@ -1287,6 +1304,39 @@ public:
         return ss.str();
     }
 
+    /// \brief Generate the modules that a DependencyNode (or any of its ancestors) needs to be declared before.
+    /// \param[in] node DependencyNode whose parent modules will be generated.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \returns A string with the IDL of those modules that were not generated yet.
+    std::string generate_parent_modules(
+            const DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl = nullptr) const
+    {
+        std::stringstream ss;
+
+        if (node.iterated())
+        {
+            return ss.str();
+        }
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            ss << generate_parent_modules(ancestor.get(), tabs, module_idl);
+        }
+
+        for (const auto& parent : node.parent_modules())
+        {
+            DependencyModule* p_parent = parent.lock().get();
+            if (!p_parent->iterated() && !p_parent->in_progress())
+            {
+                ss << generate_idl(p_parent, tabs, module_idl) << std::endl;
+            }
+        }
+
+        return ss.str();
+    }
+
     /// \brief Helper method to generate IDL from root Module of this ModuleDependencyTree object.
     /// \returns A string representing IDL definition for root Module.
     inline std::string generate_idl(
-- 
2.43.0


From 58f53e32319c52a37d181e07844974922c19fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 061/108] fix: destroy what was already converted when a
 conversion is rejected

---
 include/xtypes/ArrayType.hpp        | 22 +++++++++++++++-----
 include/xtypes/MapInstance.hpp      |  1 +
 include/xtypes/PairType.hpp         | 16 +++++++++++----
 include/xtypes/SequenceInstance.hpp | 17 ++++++++++++----
 include/xtypes/StructType.hpp       | 31 ++++++++++++++++++++---------
 5 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index da57dcb..71e3ef0 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -162,12 +162,24 @@ public:
 
         if (content_type().kind() != other_array.content_type().kind() || content_type().is_constructed_type())
         {
-            for (uint32_t i = 0; i < min_dimension; i++)
+            uint32_t built = 0;
+            try
             {
-                content_type().copy_instance_from_type(
-                    target + i * block_size,
-                    source + i * other_block_size,
-                    other_array.content_type());
+                for (; built < min_dimension; built++)
+                {
+                    content_type().copy_instance_from_type(
+                        target + built * block_size,
+                        source + built * other_block_size,
+                        other_array.content_type());
+                }
+            }
+            catch (...)
+            {
+                while (built-- > 0) // Nobody else can destroy the elements already converted
+                {
+                    content_type().destroy_instance(target + built * block_size);
+                }
+                throw;
             }
         }
         else //optimization when both types are the same primitive
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index b080475..bb0f393 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -107,6 +107,7 @@ public:
                 catch (...)
                 {
                     content_->second().construct_instance(value); // All the places must be constructed
+                    content_->first().destroy_instance(key.data());
                     throw;
                 }
             }
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 4c864fc..77c3918 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,10 +126,18 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(
-            target + first_->memory_size(),
-            source + pair.first().memory_size(),
-            pair.second());
+        try
+        {
+            second_->copy_instance_from_type(
+                target + first_->memory_size(),
+                source + pair.first().memory_size(),
+                pair.second());
+        }
+        catch (...)
+        {
+            first_->destroy_instance(target); // Nobody else can destroy the key already converted
+            throw;
+        }
     }
 
     void move_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 3d8bbe8..7d867a8 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -287,10 +287,19 @@ private:
             for (uint32_t i = 0; i < min_size; i++)
             {
                 content_->destroy_instance(memory_ + i * block_size_); // The place is already constructed
-                content_->copy_instance_from_type(
-                    memory_ + i * block_size_,
-                    other.memory_ + i * other_block_size,
-                    *other.content_);
+                try
+                {
+                    content_->copy_instance_from_type(
+                        memory_ + i * block_size_,
+                        other.memory_ + i * other_block_size,
+                        *other.content_);
+                }
+                catch (...)
+                {
+                    content_->construct_instance(memory_ + i * block_size_); // All the places must be constructed
+                    free_memory();
+                    throw;
+                }
             }
         }
         else if (min_size > 0) //optimization when the type is primitive of the same kind
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index b1596b6..39e5260 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -134,20 +134,33 @@ public:
         const StructType& other_struct = static_cast<const StructType&>(other);
 
         auto other_member = other_struct.members().begin();
-        for (auto&& member: members())
+        size_t built = 0;
+        try
         {
-            if (other_member != other_struct.members().end())
+            for (auto&& member: members())
             {
-                member.type().copy_instance_from_type(
-                    target + member.offset(),
-                    source + other_member->offset(),
-                    other_member->type());
-                other_member++;
+                if (other_member != other_struct.members().end())
+                {
+                    member.type().copy_instance_from_type(
+                        target + member.offset(),
+                        source + other_member->offset(),
+                        other_member->type());
+                    other_member++;
+                }
+                else
+                {
+                    member.type().construct_instance(target + member.offset());
+                }
+                ++built;
             }
-            else
+        }
+        catch (...)
+        {
+            while (built-- > 0) // Nobody else can destroy the members already converted
             {
-                member.type().construct_instance(target + member.offset());
+                members()[built].type().destroy_instance(target + members()[built].offset());
             }
+            throw;
         }
     }
 
-- 
2.43.0


From 8c112883dc0817901f5159b7fe91db298bd6b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 062/108] fix: collections bigger than 4 GB overflowed the size
 of their memory

---
 include/xtypes/MapInstance.hpp      | 11 +++++++++--
 include/xtypes/SequenceInstance.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index bb0f393..7e7634c 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,8 @@
 
 #include <cstdint>
 #include <cstring>
+#include <limits>
+#include <stdexcept>
 #include <vector>
 
 namespace eprosima {
@@ -174,7 +176,7 @@ public:
 
         if (memory_ == nullptr || size_ == capacity_)
         {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
         }
 
         uint8_t* place = create_place(instance);
@@ -240,7 +242,7 @@ private:
     friend class MapType;
 
     std::shared_ptr<const PairType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -250,6 +252,11 @@ private:
             uint32_t bounds)
     {
         size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        if (new_capacity > std::numeric_limits<uint32_t>::max())
+        {
+            throw std::length_error("The collection cannot have so many elements.");
+        }
+
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 7d867a8..57c549a 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -21,6 +21,8 @@
 
 #include <cstdint>
 #include <cstring>
+#include <limits>
+#include <stdexcept>
 
 namespace eprosima {
 namespace xtypes {
@@ -157,7 +159,7 @@ public:
                     && instance >= memory_ && instance < memory_ + size_ * block_size_;
             const size_t offset = own_element ? instance - memory_ : 0;
 
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
 
             if (own_element)
             {
@@ -214,7 +216,7 @@ private:
     friend class SequenceType;
 
     std::shared_ptr<const DynamicType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -224,6 +226,11 @@ private:
             uint32_t bounds)
     {
         size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        if (new_capacity > std::numeric_limits<uint32_t>::max())
+        {
+            throw std::length_error("The collection cannot have so many elements.");
+        }
+
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
-- 
2.43.0


From 0e89468d6613faaa2c8f9d740703c27b88728de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 063/108] fix: wide char labels above 0xFFFF were truncated
 when given as text

---
 include/xtypes/UnionType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 550d2ce..79065a2 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -1202,7 +1202,7 @@ protected:
                     case TypeKind::WIDE_CHAR_TYPE:
                     {
                         std::basic_string<XTYPES_CHAR> aux(label.begin(), label.end());
-                        auto aux2 = code_conversion_tool<char16_t>(aux);
+                        auto aux2 = code_conversion_tool<char32_t>(aux);
                         std::wstring temp(aux2.begin(), aux2.end());
                         wchar_t value;
                         // Check if comes with "'"
-- 
2.43.0


From 7f92cbedef6c59e1c0fb828797d5ac60297ed9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 064/108] fix: wide char labels above 0xFFFF could not be
 written to IDL

---
 include/xtypes/idl/generator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 3dcf915..4a07f56 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -239,8 +239,11 @@ inline std::string label_value(
             ss << "'" << temp << "'";
             return ss.str();
         }
-        case TypeKind::CHAR_16_TYPE:
         case TypeKind::WIDE_CHAR_TYPE:
+        {
+            return "L'" + detail::to_utf8(std::wstring(1, static_cast<wchar_t>(value))) + "'";
+        }
+        case TypeKind::CHAR_16_TYPE:
         {
             char16_t temp = static_cast<char16_t>(value);
             std::stringstream ss;
-- 
2.43.0


From fd40c60091e638b1d2c6eef2ec9e8e2b5901ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 065/108] fix: the quotes, backslashes and control characters
 of IDL literals were not escaped

---
 include/xtypes/idl/generator.hpp | 50 +++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 4a07f56..4ba8adf 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -215,6 +215,42 @@ inline std::string type_name(
     }
 }
 
+/// \brief Writes the characters that cannot appear in an IDL literal as escape sequences.
+inline std::string escape_literal(
+        const std::string& text,
+        char quote)
+{
+    static const std::string codes = "\n\t\v\b\r\f\a\\";
+    static const std::string names = "ntvbrfa\\";
+    std::string result;
+    for (char c : text)
+    {
+        const size_t escape = codes.find(c);
+        if (escape != std::string::npos)
+        {
+            result += '\\';
+            result += names[escape];
+        }
+        else if (c == quote)
+        {
+            result += '\\';
+            result += c;
+        }
+        else if (static_cast<unsigned char>(c) < 0x20)
+        {
+            result += '\\';
+            result += static_cast<char>('0' + c / 64);
+            result += static_cast<char>('0' + c / 8 % 8);
+            result += static_cast<char>('0' + c % 8);
+        }
+        else
+        {
+            result += c;
+        }
+    }
+    return result;
+}
+
 inline std::string label_value(
         size_t value,
         const DynamicType& type)
@@ -236,19 +272,19 @@ inline std::string label_value(
         {
             char temp = static_cast<char>(value);
             std::stringstream ss;
-            ss << "'" << temp << "'";
+            ss << "'" << escape_literal(std::string(1, temp), '\'') << "'";
             return ss.str();
         }
         case TypeKind::WIDE_CHAR_TYPE:
         {
-            return "L'" + detail::to_utf8(std::wstring(1, static_cast<wchar_t>(value))) + "'";
+            return "L'" + escape_literal(detail::to_utf8(std::wstring(1, static_cast<wchar_t>(value))), '\'') + "'";
         }
         case TypeKind::CHAR_16_TYPE:
         {
             char16_t temp = static_cast<char16_t>(value);
             std::stringstream ss;
             auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, temp));
-            ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
+            ss << "L'" << escape_literal(std::string(aux.begin(), aux.end()), '\'') << "'";
             return ss.str();
         }
         case TypeKind::INT_8_TYPE:
@@ -474,16 +510,16 @@ inline std::string get_const_value(
             ss << (data.value<bool>() ? "TRUE" : "FALSE");
             break;
         case TypeKind::CHAR_8_TYPE:
-            ss << prefix << data.value<char>() << suffix;
+            ss << prefix << escape_literal(std::string(1, data.value<char>()), '\'') << suffix;
             break;
         case TypeKind::CHAR_16_TYPE:
-            ss << prefix << detail::to_utf8(std::u16string(1, data.value<char16_t>())) << suffix;
+            ss << prefix << escape_literal(detail::to_utf8(std::u16string(1, data.value<char16_t>())), '\'') << suffix;
             break;
         case TypeKind::WIDE_CHAR_TYPE:
-            ss << prefix << detail::to_utf8(std::wstring(1, data.value<wchar_t>())) << suffix;
+            ss << prefix << escape_literal(detail::to_utf8(std::wstring(1, data.value<wchar_t>())), '\'') << suffix;
             break;
         default:
-            ss << prefix << data.cast<std::string>() << suffix;
+            ss << prefix << escape_literal(data.cast<std::string>(), '"') << suffix;
     }
 
     return ss.str();
-- 
2.43.0


From 1b8a1306c78057d9dcc16ef34a1960d910c1115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 066/108] fix: floating point constants were rounded to six
 decimals in IDL

---
 include/xtypes/idl/generator.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 4ba8adf..8ac851b 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -28,6 +28,8 @@
 #include <xtypes/idl/generator_deptree.hpp>
 #include <xtypes/idl/Module.hpp>
 
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 #define dependencynode_assert(NODEPTR, KIND) \
@@ -466,6 +468,21 @@ inline std::string enumeration32(
     return ss.str();
 }
 
+/// \brief Writes a floating point value with all its digits.
+template<typename T>
+inline std::string float_literal(
+        T value)
+{
+    std::ostringstream ss;
+    ss << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
+    std::string result = ss.str();
+    if (result.find_first_not_of("-0123456789") == std::string::npos)
+    {
+        result += ".0"; // Otherwise it would be an integer
+    }
+    return result;
+}
+
 inline std::string get_const_value(
         ReadableDynamicDataRef data)
 {
@@ -509,6 +526,15 @@ inline std::string get_const_value(
         case TypeKind::BOOLEAN_TYPE:
             ss << (data.value<bool>() ? "TRUE" : "FALSE");
             break;
+        case TypeKind::FLOAT_32_TYPE:
+            ss << float_literal(data.value<float>());
+            break;
+        case TypeKind::FLOAT_64_TYPE:
+            ss << float_literal(data.value<double>());
+            break;
+        case TypeKind::FLOAT_128_TYPE:
+            ss << float_literal(data.value<long double>());
+            break;
         case TypeKind::CHAR_8_TYPE:
             ss << prefix << escape_literal(std::string(1, data.value<char>()), '\'') << suffix;
             break;
-- 
2.43.0


From eaa3b321063f6f1373a75ecc826d6a6ac44f59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 067/108] fix: a constant that replaces an enumerator was still
 taken for one

---
 include/xtypes/idl/Module.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 23c7fd7..7e30d0d 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -22,6 +22,7 @@
 
 #include <xtypes/idl/Type.hpp>
 
+#include <algorithm>
 #include <string>
 #include <memory>
 
@@ -464,6 +465,7 @@ public:
             {
                 constants_.erase(it);
                 constants_types_.erase(constants_types_.find(name));
+                from_enum_.erase(std::remove(from_enum_.begin(), from_enum_.end(), name), from_enum_.end());
             }
         }
 
-- 
2.43.0


From 6de36de1ffda1b91031a56639be5b461d04bd1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 068/108] fix: name the arrays of several dimensions after all
 of them

---
 include/xtypes/ArrayType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 71e3ef0..794d1b6 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -89,7 +89,7 @@ public:
         {
             content_ = DynamicType::Ptr(content);
         }
-        name_ = "array_" + std::to_string(dimension_) + "_" + content.name();
+        name_ = "array_" + std::to_string(dimension_) + "_" + content_type().name();
     }
 
     /// \brief Dimension of the array.
-- 
2.43.0


From 13bf4725d57d71cb830fe36b452ab0528d0581f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 069/108] fix: data of types with different layout were
 compared as if they had the same one

---
 include/xtypes/DynamicData.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 678695c..7a38518 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -82,13 +82,19 @@ public:
     bool operator == (
             const ReadableDynamicDataRef& other) const
     {
-        if (type_->kind() == TypeKind::ARRAY_TYPE)
+        if (type_->kind() == TypeKind::ARRAY_TYPE && type_->name() != other.type().name())
         {
             // If the data is Array, a fast way to discard equality is that the content or size of the array
             // is different. We can check both without casting the type by comparing the type (array) name.
-            return type_->name() == other.type().name() && type_->compare_instance(instance_, other.instance_);
+            return false;
         }
-        return type_->compare_instance(instance_, other.instance_);
+
+        // The memory of both can only be compared if their types share the same layout.
+        const TypeConsistency layout_differences = TypeConsistency::IGNORE_TYPE_WIDTH
+                | TypeConsistency::IGNORE_ARRAY_BOUNDS
+                | TypeConsistency::IGNORE_MEMBERS;
+        return (type_->is_compatible(other.type()) & layout_differences) == TypeConsistency::EQUALS
+               && type_->compare_instance(instance_, other.instance_);
     }
 
     /// \brief Deep inequality operator. Inverse of == operator.
-- 
2.43.0


From a3c5a0d3bf254adc580df24ce045d94faa3914f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 070/108] fix: keep the name of a pair in step with the types
 of its elements

---
 include/xtypes/PairType.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 77c3918..b873993 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -62,24 +62,28 @@ public:
             const DynamicType& first)
     {
         first_ = DynamicType::Ptr(first);
+        name_ = name(*first_, *second_);
     }
 
     void first(
             DynamicType&& first)
     {
         first_ = DynamicType::Ptr(std::move(first));
+        name_ = name(*first_, *second_);
     }
 
     void second(
             const DynamicType& second)
     {
         second_ = DynamicType::Ptr(second);
+        name_ = name(*first_, *second_);
     }
 
     void second(
             DynamicType&& second)
     {
         second_ = DynamicType::Ptr(std::move(second));
+        name_ = name(*first_, *second_);
     }
 
     size_t memory_size() const override
-- 
2.43.0


From 76874dde7213e219c4b18fb8bfcb0a65569ca03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 071/108] fix: the items() of a temporary reference were
 iterated through a dangling reference

---
 include/xtypes/DynamicData.hpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 7a38518..95d7061 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -568,7 +568,6 @@ public:
         MemberIterator(
                 const MemberIterator& it)
             : Iterator (it)
-            , ref_(it.ref_)
         {
         }
 
@@ -598,14 +597,18 @@ public:
         {
             xtypes_assert(type_->is_aggregation_type(),
                     "begin() isn't available for type '" << type_->name() << "'.");
-            return MemberIterator(ref_, false);
+            MemberIterator it(*this);
+            it.index_ = 0;
+            return it;
         }
 
         MemberIterator end() const
         {
             xtypes_assert(type_->is_aggregation_type(),
                     "end() isn't available for type '" << type_->name() << "'.");
-            return MemberIterator(ref_, true);
+            MemberIterator it(*this);
+            it.index_ = static_cast<const AggregationType&>(*type_).members().size();
+            return it;
         }
 
     protected:
@@ -613,13 +616,10 @@ public:
         friend class ReadableDynamicDataRef;
         friend class WritableDynamicDataRef;
 
-        const ReadableDynamicDataRef& ref_;
-
         MemberIterator(
                 const ReadableDynamicDataRef& ref,
                 bool end)
             : Iterator(ref, end)
-            , ref_(ref)
         {
         }
 
@@ -1257,7 +1257,6 @@ public:
         MemberIterator(
                 const MemberIterator& it)
             : Iterator(it)
-            , ref_(it.ref_)
         {
         }
 
@@ -1285,32 +1284,26 @@ public:
 
         MemberIterator begin()
         {
-            return ReadableDynamicDataRef::MemberIterator(ref_, false);
+            MemberIterator it(*this);
+            it.index_ = 0;
+            return it;
         }
 
         MemberIterator end()
         {
-            return ReadableDynamicDataRef::MemberIterator(ref_, true);
+            MemberIterator it(*this);
+            it.index_ = static_cast<const AggregationType&>(*type_).members().size();
+            return it;
         }
 
     protected:
 
         friend class WritableDynamicDataRef;
 
-        WritableDynamicDataRef& ref_;
-
         MemberIterator(
                 WritableDynamicDataRef& ref,
                 bool end)
             : Iterator(ref, end)
-            , ref_(ref)
-        {
-        }
-
-        MemberIterator(
-                const ReadableDynamicDataRef::MemberIterator& mit)
-            : Iterator (mit)
-            , ref_(static_cast<WritableDynamicDataRef&>(const_cast<ReadableDynamicDataRef&>(mit.ref_)))
         {
         }
 
-- 
2.43.0


From cab33d55300d23d568a896fa4841f892c2e9fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 072/108] fix: the items() of an union gave access to the
 members that are not selected and to write its discriminator

---
 include/xtypes/DynamicData.hpp | 34 +++++++++++++++++++++++++++++-----
 include/xtypes/UnionType.hpp   |  9 +++++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 95d7061..f8e9413 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -493,6 +493,19 @@ public:
 
         friend class ReadableDynamicDataRef;
 
+        /// \brief Location of the member that the iterator of an aggregation refers to.
+        /// \returns nullptr if it is a member of an union that isn't selected.
+        uint8_t* member_instance() const
+        {
+            const Member& member = static_cast<const AggregationType&>(*type_).member(index_);
+            if (type_->kind() == TypeKind::UNION_TYPE && index_ != 0 // The discriminator is always available
+                    && !static_cast<const UnionType&>(*type_).is_selected(instance_, member))
+            {
+                return nullptr;
+            }
+            return instance_ + member.offset();
+        }
+
         Iterator(
                 const ReadableDynamicDataRef& ref,
                 bool end)
@@ -544,8 +557,11 @@ public:
             return member_;
         }
 
+        /// \pre If the member belongs to an union, it must be the selected one or the discriminator.
         ReadableDynamicDataRef data() const
         {
+            xtypes_assert(instance_ != nullptr,
+                    "Cannot retrieve '" << member_.name() << "', a non-selected case member.");
             return ReadableDynamicDataRef(member_.type(), instance_);
         }
 
@@ -574,9 +590,7 @@ public:
         const MemberPair operator * () const
         {
             const AggregationType& aggregation = static_cast<const AggregationType&>(*type_);
-            return MemberPair(
-                aggregation.member(index_),
-                instance_ + aggregation.member(index_).offset());
+            return MemberPair(aggregation.member(index_), member_instance());
         }
 
         MemberIterator& operator ++ ()
@@ -1233,13 +1247,19 @@ public:
 
         MemberPair(
                 const Member& member,
-                uint8_t* data)
+                uint8_t* data,
+                bool writable = true)
             : ReadableDynamicDataRef::MemberPair(member, data)
+            , writable_(writable)
         {
         }
 
+        /// \pre If the member belongs to an union, it must be the selected one.
         WritableDynamicDataRef data()
         {
+            xtypes_assert(instance_ != nullptr,
+                    "Cannot retrieve '" << member_.name() << "', a non-selected case member.");
+            xtypes_assert(writable_, "Access to Union discriminator must be done through 'd()' method.");
             return WritableDynamicDataRef(member_.type(), instance_);
         }
 
@@ -1248,6 +1268,9 @@ public:
             return ReadableDynamicDataRef::MemberPair::data();
         }
 
+    private:
+
+        bool writable_;
     };
 
     class MemberIterator : public Iterator
@@ -1265,7 +1288,8 @@ public:
             const AggregationType& aggregation = static_cast<const AggregationType&>(*type_);
             return MemberPair(
                 aggregation.member(index_),
-                instance_ + aggregation.member(index_).offset());
+                member_instance(),
+                type_->kind() != TypeKind::UNION_TYPE || index_ != 0);
         }
 
         MemberIterator& operator ++ ()
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 79065a2..f08d39d 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -1045,6 +1045,15 @@ protected:
         return *member;
     }
 
+    /// \brief Check if a case member is the current selected one.
+    bool is_selected(
+            const uint8_t* instance,
+            const Member& member) const
+    {
+        auto it = labels_.find(current_label(disc()->type(), instance));
+        return it != labels_.end() && it->second == member.name();
+    }
+
     /// \brief This method destroys previous active member, if any, and constructs the new one,
     /// setting it as active.
     void activate_member(
-- 
2.43.0


From 88414632aa5ebb24542277ecc97bba79bf7a3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 073/108] fix: the content of a temporary data was leaked when
 a reference was made from it

The move constructor of ReadableDynamicDataRef takes the ownership of the content
from its source, but a reference never releases it. A reference is done from the
rvalue of a DynamicData when it is given to a function that expects it by value,
like the key of a map (map[DynamicData(...)]) or a discriminator.
---
 include/xtypes/DynamicData.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index f8e9413..8ee7010 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -68,14 +68,6 @@ public:
 
     ReadableDynamicDataRef(const ReadableDynamicDataRef& other) = default;
 
-    ReadableDynamicDataRef(ReadableDynamicDataRef&& other)
-        : type_(std::move(other.type_))
-        , instance_(other.instance_)
-        , initialize_(other.initialize_)
-    {
-        other.initialize_ = false;
-    }
-
     virtual ~ReadableDynamicDataRef() = default;
 
     /// \brief Deep equality operator. All DynamicData tree will be evaluated for equality.
-- 
2.43.0


From b8cb2a4ff63b9cfc29f19afee410c1bcf1b0e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 074/108] fix: a quote in the IDL text made the parser read out
 of bounds, and the shell interpret the text

---
 include/xtypes/idl/parser.hpp | 37 ++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 0d0796c..458f8dc 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -306,27 +306,27 @@ private:
     }
 #endif // _MSC_VER
 
-    void replace_all_string(
-            std::string& str,
-            const std::string& from,
-            const std::string& to) const
+    // Quote a text for the shell: nothing is interpreted between single quotes
+    static std::string quote_for_shell(
+            const std::string& text)
     {
-        size_t froms = from.size();
-        size_t tos = to.size();
-        size_t pos = str.find(from);
-        const std::string escaped = "\\\\\"";
-        size_t escaped_size = escaped.size();
-        while (pos != std::string::npos)
+#ifdef _MSC_VER
+        return "\"" + text + "\"";
+#else
+        std::string result = "'";
+        for (char c : text)
         {
-            str.replace(pos, froms, to);
-            pos = str.find(from, pos + tos);
-            while (str[pos - 1] == '\\')
+            if (c == '\'')
             {
-                str.replace(pos, froms, escaped);
-                pos = str.find(from, pos + escaped_size);
+                result += "'\\''";
+            }
+            else
+            {
+                result += c;
             }
-
         }
+        return result + "'";
+#endif // _MSC_VER
     }
 
     std::string exec(
@@ -366,10 +366,7 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     {
         args += include_flag + inc_path + " ";
     }
-    // Escape double quotes inside the idl_string
-    std::string escaped_idl_string = idl_string;
-    replace_all_string(escaped_idl_string, "\"", "\\\"");
-    std::string cmd = "echo \"" + escaped_idl_string + "\" | "
+    std::string cmd = "printf '%s\\n' " + quote_for_shell(idl_string) + " | "
             + preprocessor_exec + " " + args + error_redir;
 
     log(log::LogLevel::xDEBUG, "PREPROCESS",
-- 
2.43.0


From e64c992135088aab473d1329494caf08572676c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 075/108] fix: files and include paths with spaces or quotes
 couldn't be preprocessed

---
 include/xtypes/idl/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 458f8dc..19f233d 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -257,10 +257,10 @@ public:
         std::string args;
         for (const std::string& inc_path : include_paths)
         {
-            args += include_flag + inc_path + " ";
+            args += include_flag + quote_for_shell(inc_path) + " ";
         }
 
-        std::string cmd = preprocessor_exec + " " + args + idl_file + error_redir;
+        std::string cmd = preprocessor_exec + " " + args + quote_for_shell(idl_file) + error_redir;
 
         log(log::LogLevel::xDEBUG, "PREPROCESS",
                 "Calling preprocessor with command: " + cmd);
@@ -364,7 +364,7 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     std::string args;
     for (const std::string& inc_path : include_paths)
     {
-        args += include_flag + inc_path + " ";
+        args += include_flag + quote_for_shell(inc_path) + " ";
     }
     std::string cmd = "printf '%s\\n' " + quote_for_shell(idl_string) + " | "
             + preprocessor_exec + " " + args + error_redir;
-- 
2.43.0


From 574facf28bad7be97442e1a48eccf2efe0a18aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 076/108] fix: a comment after a tabulator and consecutive
 annotations were syntax errors in the IDL parser

---
 include/xtypes/idl/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5b144ce..40b5430 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -183,7 +183,7 @@ ANNOTATION_BODY <- (ANNOTATION_MEMBER / ENUM_DCL SEMICOLON / CONST_DCL SEMICOLON
 ANNOTATION_MEMBER <- WS? ANNOTATION_MEMBER_TYPE WS? SIMPLE_DECLARATOR (KW_DEFAULT CONST_EXPR)? SEMICOLON
 ANNOTATION_MEMBER_TYPE <- CONST_TYPE / ANY_CONST_TYPE / SCOPED_NAME
 ANY_CONST_TYPE <- KW_ANY
-ANNOTATION_APPL <- "@" SCOPED_NAME ( OPEN_PARENTHESES ANNOTATION_APPL_PARAMS CLOSE_PARENTHESES )?
+ANNOTATION_APPL <- "@" SCOPED_NAME ( OPEN_PARENTHESES ANNOTATION_APPL_PARAMS CLOSE_PARENTHESES )? WS?
 ANNOTATION_APPL_PARAMS <- ANNOTATION_APPL_PARAM (COMMA ANNOTATION_APPL_PARAM)* / ANNOTATION_APPL_PARAM
 ANNOTATION_APPL_PARAM <- IDENTIFIER EQUAL_OP CONST_EXPR / CONST_EXPR
 
@@ -294,7 +294,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~KW_OPEN_BLOCK_COMMENT <- < "/*" >
 ~KW_CLOSE_BLOCK_COMMENT <- < "*/" >
 # SYMBOLS
-~WS <- COMMENT / [ \t\r\n]+
+~WS <- (COMMENT / [ \t\r\n]+)+
 ~SEMICOLON <- WS? < ';' > WS?
 ~COLON <- WS? < ':' > WS?
 ~DOUBLE_COLON <- "::"
-- 
2.43.0


From 8646c05f54c2a871ae5e24031bf6ac1318be430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 077/108] fix: the IDL constant expressions were applied from
 right to left, '~' was ignored and a division by zero ended the process

---
 include/xtypes/idl/grammar.hpp |  16 ++--
 include/xtypes/idl/parser.hpp  | 144 +++++++++++++++++----------------
 2 files changed, 82 insertions(+), 78 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 40b5430..6e29129 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -63,15 +63,13 @@ CONST_TYPE <-
     WIDE_STRING_TYPE /
     SCOPED_NAME
 
-#CONST_EXPR <- OR_EXPR
-#OR_EXPR <- XOR_EXPR OR_OP OR_EXPR / XOR_EXPR
-
-CONST_EXPR <- XOR_EXPR OR_OP CONST_EXPR / XOR_EXPR
-XOR_EXPR <- AND_EXPR XOR_OP XOR_EXPR / AND_EXPR
-AND_EXPR <- SHIFT_EXPR AND_OP AND_EXPR / SHIFT_EXPR
-SHIFT_EXPR <- ADD_EXPR ANY_SHITF_OP SHIFT_EXPR / ADD_EXPR
-ADD_EXPR <- MULT_EXPR ANY_ADD_OP ADD_EXPR / MULT_EXPR
-MULT_EXPR <- UNARY_EXPR ANY_MULT_OP MULT_EXPR / UNARY_EXPR
+# The operators of the same precedence are applied from left to right.
+CONST_EXPR <- XOR_EXPR (OR_OP XOR_EXPR)*
+XOR_EXPR <- AND_EXPR (XOR_OP AND_EXPR)*
+AND_EXPR <- SHIFT_EXPR (AND_OP SHIFT_EXPR)*
+SHIFT_EXPR <- ADD_EXPR (ANY_SHITF_OP ADD_EXPR)*
+ADD_EXPR <- MULT_EXPR (ANY_ADD_OP MULT_EXPR)*
+MULT_EXPR <- UNARY_EXPR (ANY_MULT_OP UNARY_EXPR)*
 UNARY_EXPR <- UNARY_OP PRIMARY_EXPR / PRIMARY_EXPR
 PRIMARY_EXPR <- OPEN_PARENTHESES CONST_EXPR CLOSE_PARENTHESES / SCOPED_OR_LITERAL
 SCOPED_OR_LITERAL <- LITERAL / SCOPED_NAME
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 19f233d..f5c5a7b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1287,91 +1287,97 @@ private:
                     DynamicData temp(-result);
                     result = temp;
                 }
-            }
-            break;
-            case "MULT_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                if (ast->nodes[1]->tag == "MULT_OP"_)
-                {
-                    DynamicData temp(lho* rho);
-                    result = temp;
-                }
-                else if (ast->nodes[1]->tag == "DIV_OP"_)
-                {
-                    DynamicData temp(lho / rho);
-                    result = temp;
-                    //return lho / rho;
-                }
-                else if (ast->nodes[1]->tag == "MOD_OP"_)
+                else if (ast->nodes[0]->tag == "NEG_OP"_)
                 {
-                    DynamicData temp(lho % rho);
+                    DynamicData temp(~result);
                     result = temp;
                 }
             }
             break;
+            case "MULT_EXPR"_:
             case "ADD_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "ADD_OP"_)
-                {
-                    temp = DynamicData(lho + rho);
-                }
-                else if (ast->nodes[1]->tag == "SUB_OP"_)
-                {
-                    temp = DynamicData(lho - rho);
-                }
-                result = temp;
-            }
-            break;
             case "SHIFT_EXPR"_:
+            case "AND_EXPR"_:
+            case "XOR_EXPR"_:
+            case "CONST_EXPR"_: // OR_EXPR
             {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "LSHIFT_OP"_)
+                // Operands and operators alternate, and are applied from left to right.
+                result = solve_expr(type, ast->nodes[0], outer);
+                for (size_t idx = 1; idx + 1 < ast->nodes.size(); idx += 2)
                 {
-                    temp = DynamicData(lho << rho);
-                }
-                else if (ast->nodes[1]->tag == "RSHIFT_OP"_)
-                {
-                    temp = DynamicData(lho >> rho);
+                    DynamicData rho = solve_expr(type, ast->nodes[idx + 1], outer);
+                    DynamicData temp(apply_operator(result, rho, ast->nodes[idx]));
+                    result = temp;
                 }
-                result = temp;
             }
             break;
-            case "AND_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
+        }
+        return result;
+    }
 
-                result = DynamicData(lho & rho);
-            }
-            break;
-            case "XOR_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
+    // The integer divisions without result cannot be computed
+    void check_divisor(
+            const DynamicData& lho,
+            const DynamicData& rho,
+            const std::shared_ptr<peg::Ast>& op) const
+    {
+        const TypeKind kind = rho.type().kind();
+        if (kind == TypeKind::FLOAT_32_TYPE || kind == TypeKind::FLOAT_64_TYPE || kind == TypeKind::FLOAT_128_TYPE)
+        {
+            return;
+        }
 
-                result = DynamicData(lho ^ rho);
-            }
-            break;
-            case "CONST_EXPR"_: // OR_EXPR
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
+        std::string message;
+        if (rho == DynamicData(rho.type()))
+        {
+            message = "Division by zero in a constant expression.";
+        }
+        else if ((kind == TypeKind::INT_32_TYPE && rho.value<int32_t>() == -1
+                && lho.value<int32_t>() == std::numeric_limits<int32_t>::min())
+                || (kind == TypeKind::INT_64_TYPE && rho.value<int64_t>() == -1
+                && lho.value<int64_t>() == std::numeric_limits<int64_t>::min()))
+        {
+            message = "The result of a division in a constant expression is out of range.";
+        }
 
-                result = DynamicData(lho | rho);
-            }
-            break;
+        if (!message.empty())
+        {
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, op);
+            throw exception(message, op);
+        }
+    }
+
+    DynamicData apply_operator(
+            const DynamicData& lho,
+            const DynamicData& rho,
+            const std::shared_ptr<peg::Ast>& op) const
+    {
+        using namespace peg::udl;
+        switch (op->tag)
+        {
+            case "MULT_OP"_:
+                return lho * rho;
+            case "DIV_OP"_:
+                check_divisor(lho, rho, op);
+                return lho / rho;
+            case "MOD_OP"_:
+                check_divisor(lho, rho, op);
+                return lho % rho;
+            case "ADD_OP"_:
+                return lho + rho;
+            case "SUB_OP"_:
+                return lho - rho;
+            case "LSHIFT_OP"_:
+                return lho << rho;
+            case "RSHIFT_OP"_:
+                return lho >> rho;
+            case "AND_OP"_:
+                return lho & rho;
+            case "XOR_OP"_:
+                return lho ^ rho;
+            default: // OR_OP
+                return lho | rho;
         }
-        return result;
     }
 
     void enum_dcl(
-- 
2.43.0


From eb82fac0815682917d3ffe8723a22f77b8d53c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 078/108] fix: the annotated enumerators lost their names in
 the IDL parser

---
 include/xtypes/idl/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index f5c5a7b..2b17d03 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1394,7 +1394,9 @@ private:
                 ast);
         for (size_t idx = 1; idx < ast->nodes.size(); ++idx)
         {
-            const auto& token_view = ast->nodes[idx]->token;
+            // The identifier comes after the annotations, if any
+            const auto& node = ast->nodes[idx];
+            const auto& token_view = node->nodes.empty() ? node->token : node->nodes.back()->token;
             const std::string token(token_view.data(), token_view.size());
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
-- 
2.43.0


From f9c00326e29e923f73dd76d758b54a9f7c01bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 079/108] fix: the member of an union with only one case was
 lost in the IDL parser

---
 include/xtypes/idl/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 2b17d03..7c30aa9 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1566,7 +1566,14 @@ private:
                     break;
                 }
                 case "SWITCH_BODY"_:
-                    switch_body(node, outer, member_list, type);
+                    if (node->tag == "CASE"_) // A body with only one case is reduced to it.
+                    {
+                        switch_case(node, outer, member_list, type);
+                    }
+                    else
+                    {
+                        switch_body(node, outer, member_list, type);
+                    }
                     break;
             }
         }
-- 
2.43.0


From d5e1501dce330e6f93e0a170b2d333d075c02087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:41 +0000
Subject: [PATCH 080/108] fix: the IDL parser kept the quotes in the characters
 and wide strings, and didn't decode the escape sequences

---
 include/xtypes/idl/grammar.hpp |   2 +-
 include/xtypes/idl/parser.hpp  | 159 ++++++++++++++++++++++++++-------
 2 files changed, 127 insertions(+), 34 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 6e29129..3bda823 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -191,7 +191,7 @@ INTEGER_LITERAL <- < OCT_LITERAL / HEX_LITERAL / DEC_LITERAL >
 DEC_LITERAL <- [1-9] DECIMAL_DIGIT* / '0'
 OCT_LITERAL <- '0' OCTAL_DIGIT+
 HEX_LITERAL <- '0' [xX] HEX_DIGIT+
-CHAR_LITERAL <- < "'" (!["'"\\] .)+ "'" > / "'" ESCAPE_SEQUENCE "'"
+CHAR_LITERAL <- < "'" (ESCAPE_SEQUENCE / (!['\\] .))+ "'" >
 WIDE_CHAR_LITERAL <- < 'L' CHAR_LITERAL >
 # String literals must avoid '\0' inside them. Check after parsing!
 STRING_LITERAL <- ( SUBSTRING_LITERAL )+
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7c30aa9..ba5fbec 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -41,6 +41,7 @@
 #endif //_MSC_VER
 
 #include <array>
+#include <cstring>
 #include <exception>
 #include <filesystem>
 #include <fstream>
@@ -1007,6 +1008,116 @@ private:
         outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
     }
 
+    // Text between the quotes of a character or string literal, with its escape sequences replaced. As UTF-8.
+    static std::string decode_literal(
+            const std::string_view& literal,
+            bool wide)
+    {
+        const size_t begin = literal.find_first_of("'\"");
+        if (begin == std::string_view::npos)
+        {
+            return std::string(literal);
+        }
+
+        static const std::string names = "ntvbrfa";
+        static const std::string codes = "\n\t\v\b\r\f\a";
+        const char quote = literal[begin];
+        std::string result;
+
+        auto append_code = [&](uint32_t code, bool character)
+                {
+                    if (!character || code < 0x80)
+                    {
+                        result += static_cast<char>(code);
+                    }
+                    else if (code < 0x800)
+                    {
+                        result += static_cast<char>(0xC0 | (code >> 6));
+                        result += static_cast<char>(0x80 | (code & 0x3F));
+                    }
+                    else
+                    {
+                        result += static_cast<char>(0xE0 | (code >> 12));
+                        result += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+                        result += static_cast<char>(0x80 | (code & 0x3F));
+                    }
+                };
+
+        for (size_t pos = begin + 1; pos < literal.size() && literal[pos] != quote; ++pos)
+        {
+            if (literal[pos] != '\\' || pos + 1 == literal.size())
+            {
+                result += literal[pos];
+                continue;
+            }
+
+            const char type = literal[++pos];
+            const size_t name = names.find(type);
+            const bool octal = type >= '0' && type <= '7';
+            if (name != std::string::npos)
+            {
+                result += codes[name];
+            }
+            else if (octal || type == 'x' || type == 'u')
+            {
+                const size_t digits = octal ? 3 : type == 'x' ? 2 : 4;
+                const char* allowed = octal ? "01234567" : "0123456789abcdefABCDEF";
+                const size_t first = octal ? pos : pos + 1;
+                size_t end = first;
+                while (end < literal.size() && end - first < digits && std::strchr(allowed, literal[end]) != nullptr)
+                {
+                    ++end;
+                }
+                const std::string number(literal.substr(first, end - first));
+                append_code(static_cast<uint32_t>(std::strtoul(number.c_str(), nullptr, octal ? 8 : 16)),
+                        wide || type == 'u');
+                pos = end - 1;
+            }
+            else
+            {
+                result += type;
+            }
+        }
+        return result;
+    }
+
+    // Value of a literal, which may be split in several ones.
+    static std::string decode_literal(
+            const std::shared_ptr<peg::Ast>& ast,
+            bool wide)
+    {
+        if (ast->nodes.empty())
+        {
+            return decode_literal(ast->token, wide);
+        }
+
+        std::string result;
+        for (auto& node : ast->nodes) // SUBSTRING_LITERAL
+        {
+            result += decode_literal(node->token, wide);
+        }
+        return result;
+    }
+
+    // Value of a wide character or string literal
+    template<typename WIDE>
+    static std::basic_string<WIDE> decode_wide_literal(
+            const std::shared_ptr<peg::Ast>& ast)
+    {
+        const std::string text = decode_literal(ast, true);
+        const std::basic_string<XTYPES_CHAR> aux(text.begin(), text.end());
+        if constexpr (sizeof(WIDE) == sizeof(char16_t))
+        {
+            auto temp = code_conversion_tool<char16_t>(aux);
+            return std::basic_string<WIDE>(temp.begin(), temp.end());
+        }
+        else
+        {
+            auto temp = code_conversion_tool<char32_t>(aux);
+            return std::basic_string<WIDE>(temp.begin(), temp.end());
+        }
+    }
+
     bool get_literal_value(
             DynamicData& data,
             const std::shared_ptr<peg::Ast>& ast) const
@@ -1036,21 +1147,25 @@ private:
         {
             case TypeKind::INT_8_TYPE:
             {
-                if (tag != "INTEGER_LITERAL"_)
+                if (tag != "INTEGER_LITERAL"_ && tag != "CHAR_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int8_t value = static_cast<int8_t>(std::strtoll(literal.data(), nullptr, base));
+                int8_t value = tag == "CHAR_LITERAL"_
+                        ? static_cast<int8_t>(decode_literal(ast, false).at(0))
+                        : static_cast<int8_t>(std::strtoll(literal.data(), nullptr, base));
                 data = value;
                 break;
             }
             case TypeKind::UINT_8_TYPE:
             {
-                if (tag != "INTEGER_LITERAL"_)
+                if (tag != "INTEGER_LITERAL"_ && tag != "CHAR_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                uint8_t value = static_cast<uint8_t>(std::strtoull(literal.data(), nullptr, base));
+                uint8_t value = tag == "CHAR_LITERAL"_
+                        ? static_cast<uint8_t>(decode_literal(ast, false).at(0))
+                        : static_cast<uint8_t>(std::strtoull(literal.data(), nullptr, base));
                 data = value;
                 break;
             }
@@ -1120,7 +1235,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("CHAR"), ast);
                 }
-                char value = literal.at(0);
+                char value = decode_literal(ast, false).at(0);
                 data = value;
                 break;
             }
@@ -1131,9 +1246,7 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux);
-                data = temp[0];
+                data = decode_wide_literal<char16_t>(ast).at(0);
                 break;
             }
             case TypeKind::WIDE_CHAR_TYPE:
@@ -1143,52 +1256,32 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto aux2 = code_conversion_tool<char16_t>(aux);
-                std::wstring temp(aux2.begin(), aux2.end());
-                data = temp[0];
+                data = decode_wide_literal<wchar_t>(ast).at(0);
                 break;
             }
             case TypeKind::STRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
-                {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
-                }
-
-                if (tag != "STRING_LITERAL"_ && tag != "UNEXPECTED_LITERAL"_)
+                if (tag != "STRING_LITERAL"_ && tag != "SUBSTRING_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "STRING", message("STRING"), ast);
                 }
 
-                data = aux;
+                data = decode_literal(ast, false);
                 break;
             }
             case TypeKind::WSTRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
-                {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
-                }
-
                 if (tag != "WIDE_STRING_LITERAL"_ && tag != "WIDE_SUBSTRING_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_STRING"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux2(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux2);
-                data = std::wstring(temp.begin(), temp.end());
+                data = decode_wide_literal<wchar_t>(ast);
                 break;
             }
             case TypeKind::STRING16_TYPE:
             {
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                data = code_conversion_tool<char16_t>(aux);
+                data = decode_wide_literal<char16_t>(ast);
                 break;
             }
             case TypeKind::BOOLEAN_TYPE:
-- 
2.43.0


From 701523a4ea5a174df7aced6a0a1f6a99e9538ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 081/108] fix: sizes that aren't decimal and typedefs with
 several names or dimensions given by constants were wrong in the IDL parser,
 and a typedef of an unsupported type ended the process

---
 include/xtypes/idl/grammar.hpp |   2 +-
 include/xtypes/idl/parser.hpp  | 132 +++++++++++----------------------
 2 files changed, 46 insertions(+), 88 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 3bda823..4e65b62 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -158,7 +158,7 @@ SIMPLE_DECLARATOR <- IDENTIFIER
 TYPEDEF_DLC <- KW_TYPEDEF TYPE_DECLARATOR
 TYPE_DECLARATOR <- (CONSTR_TYPE_DLC / TEMPLATE_TYPE_SPEC / SIMPLE_TYPE_SPEC) WS? ANY_DECLARATORS
 ANY_DECLARATORS <- ANY_DECLARATOR (COMMA ANY_DECLARATOR)*
-ANY_DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR /
+ANY_DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR
 DECLARATORS <- DECLARATOR (COMMA DECLARATOR)*
 DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR
 
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index ba5fbec..8823ec2 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -969,25 +969,40 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
-        std::string name;
-        std::vector<size_t> dimensions;
 
-        if (ast->nodes[1]->tag == "IDENTIFIER"_)
-        {
-            name = resolve_identifier(ast, ast->nodes[1]->token, outer, context_->ignore_redefinition);
-        }
-        else if (ast->nodes[1]->tag == "ARRAY_DECLARATOR"_)
+        auto add_alias = [&](const std::shared_ptr<peg::Ast>& node)
+                {
+                    DynamicType::Ptr alias = type;
+                    std::string name;
+                    if (node->tag == "ARRAY_DECLARATOR"_)
+                    {
+                        std::vector<size_t> dimensions;
+                        name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
+                        for (size_t idx = 1; idx < node->nodes.size(); ++idx)
+                        {
+                            dimensions.push_back(get_dimension(outer, node->nodes[idx]));
+                        }
+                        alias = get_array_type(dimensions, alias);
+                    }
+                    else
+                    {
+                        name = resolve_identifier(node, node->token, outer, context_->ignore_redefinition);
+                    }
+                    outer->create_alias(std::move(alias), name);
+                };
+
+        const auto& declarators = ast->nodes[1];
+        if (declarators->tag == "ANY_DECLARATORS"_)
         {
-            auto& node = ast->nodes[1];
-            name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
-            for (size_t idx = 1; idx < node->nodes.size(); ++idx)
+            for (const auto& node : declarators->nodes)
             {
-                dimensions.push_back(std::atoi(node->nodes[idx]->token.data()));
+                add_alias(node);
             }
-            type = get_array_type(dimensions, type);
         }
-
-        outer->create_alias(std::move(type), name);
+        else
+        {
+            add_alias(declarators);
+        }
     }
 
     void const_dcl(
@@ -2065,23 +2080,8 @@ private:
             case "STRING_TYPE"_:
                 return StringType();
             case "STRING_SIZE"_:
-                if (outer->has_constant(token))
-                {
-                    return StringType(get_dimension(token, outer, node));
-                }
-                return StringType(std::atoi(token.c_str()));
+                return StringType(get_dimension(outer, node));
             case "WIDE_STRING_TYPE"_:
-                if (outer->has_constant(token))
-                {
-                    if (context_->wchar_type == Context::WCHAR_T)
-                    {
-                        return WStringType(get_dimension(token, outer, node));
-                    }
-                    else // CHAR16_T
-                    {
-                        return String16Type(get_dimension(token, outer, node));
-                    }
-                }
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
                     return WStringType();
@@ -2093,11 +2093,11 @@ private:
             case "WSTRING_SIZE"_:
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
-                    return WStringType(std::atoi(token.c_str()));
+                    return WStringType(get_dimension(outer, node));
                 }
                 else // CHAR16_T
                 {
-                    return String16Type(std::atoi(token.c_str()));
+                    return String16Type(get_dimension(outer, node));
                 }
             case "SEQUENCE_TYPE"_:
             {
@@ -2121,14 +2121,14 @@ private:
                 return MapType(*key_type, *inner_type, size);
             }
             default:
-                return type_spec(node, outer);
+            {
+                const std::string message = "The type '" + token + "' (" + node->name + ") isn't supported.";
+                context_->log(log::LogLevel::xERROR, "UNKNOWN_TYPE",
+                        message,
+                        node);
+                throw exception(message, node);
+            }
         }
-
-        context_->log(log::LogLevel::xERROR, "UNKNOWN_TYPE",
-                token,
-                node);
-
-        return DynamicType::Ptr();
     }
 
     size_t get_dimension(
@@ -2177,20 +2177,18 @@ private:
             std::shared_ptr<Module>& outer,
             const std::shared_ptr<peg::Ast>& node)
     {
-        using namespace peg::udl;
-
         const auto& token_view = node->token;
         const std::string token(token_view.data(), token_view.size());
 
-        if (node->tag == "SCOPED_NAME"_)
+        if (token.empty())
         {
-            return get_dimension(token, outer, node);
+            return 0; // Without size
         }
-        else if (!token.empty())
+        else if (std::isdigit(static_cast<unsigned char>(token[0])))
         {
-            return std::stoul(token);
+            return std::stoul(token, nullptr, 0); // It may be decimal, octal or hexadecimal
         }
-        return 0;
+        return get_dimension(token, outer, node);
     }
 
     ArrayType::Ptr get_array_type(
@@ -2315,49 +2313,9 @@ private:
                             break;
                         }
                         case "INTEGER_LITERAL"_:
-                        {
-                            dimensions.push_back(std::stoul(subnode->token.data()));
-                            break;
-                        }
                         case "SCOPED_NAME"_:
                         {
-                            DynamicData c_data =
-                                    outer->constant(std::string(subnode->token.data(),
-                                            subnode->token.size()));
-                            size_t dim = 0;
-                            switch (c_data.type().kind())
-                            {
-                                case TypeKind::INT_8_TYPE:
-                                    dim = c_data.value<int8_t>();
-                                    break;
-                                case TypeKind::UINT_8_TYPE:
-                                    dim = c_data.value<uint8_t>();
-                                    break;
-                                case TypeKind::INT_16_TYPE:
-                                    dim = c_data.value<int16_t>();
-                                    break;
-                                case TypeKind::UINT_16_TYPE:
-                                    dim = c_data.value<uint16_t>();
-                                    break;
-                                case TypeKind::INT_32_TYPE:
-                                    dim = c_data.value<int32_t>();
-                                    break;
-                                case TypeKind::UINT_32_TYPE:
-                                    dim = c_data.value<uint32_t>();
-                                    break;
-                                case TypeKind::INT_64_TYPE:
-                                    dim = c_data.value<int64_t>();
-                                    break;
-                                case TypeKind::UINT_64_TYPE:
-                                    dim = c_data.value<uint64_t>();
-                                    break;
-                                default:
-                                    context_->log(log::LogLevel::xERROR, "EXCEPTION",
-                                            "Only a positive intenger number can be used as dimension.",
-                                            node);
-                                    throw exception("Only a positive intenger number can be used as dimension.", node);
-                            }
-                            dimensions.push_back(dim);
+                            dimensions.push_back(get_dimension(outer, subnode));
                             break;
                         }
                     }
-- 
2.43.0


From ce466a927fe85aa393b3f0c7970e213316d3d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 082/108] fix: the labels of the IDL unions that are
 expressions, or a default before a space, were wrong, and negative sizes were
 accepted

---
 include/xtypes/idl/grammar.hpp |  2 +-
 include/xtypes/idl/parser.hpp  | 66 +++++++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 4e65b62..13c8593 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -146,7 +146,7 @@ UNION_DEF <- KW_UNION IDENTIFIER KW_SWITCH OPEN_PARENTHESES SWITCH_TYPE_SPEC CLO
 SWITCH_TYPE_SPEC <- INTEGER_TYPE / CHAR_TYPE / BOOLEAN_TYPE / WIDE_CHAR_TYPE / OCTET_TYPE / SCOPED_NAME
 SWITCH_BODY <- CASE+
 CASE <- CASE_LABEL+ ELEMENT_SPEC SEMICOLON
-CASE_LABEL <- KW_CASE < CONST_EXPR > COLON / < KW_DEFAULT > COLON
+CASE_LABEL <- KW_CASE CONST_EXPR COLON / KW_DEFAULT COLON
 ELEMENT_SPEC <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATOR
 UNION_FORWARD_DCL <- KW_UNION < IDENTIFIER >
 ENUM_DCL <- KW_ENUM IDENTIFIER OPEN_BRACE ENUMERATOR (COMMA ENUMERATOR)* CLOSE_BRACE
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 8823ec2..860b8e9 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1745,7 +1745,7 @@ private:
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
             std::vector<LabelsCaseMemberPair>& member_list,
-            const DynamicType::Ptr)
+            const DynamicType::Ptr type)
     {
         using namespace peg::udl;
         std::vector<std::string> labels;
@@ -1757,14 +1757,7 @@ private:
             {
                 case "CASE_LABEL"_:
                 {
-                    const auto& value_view = node->token;
-                    std::string value(value_view.data(), value_view.size());
-                    if (outer->has_constant(value))
-                    {
-                        DynamicData constant = outer->constant(value);
-                        value = constant.cast<std::string>();
-                    }
-                    labels.emplace_back(std::move(value));
+                    labels.emplace_back(label_text(node, outer, *type));
                     break;
                 }
                 case "ELEMENT_SPEC"_:
@@ -1778,6 +1771,40 @@ private:
         }
     }
 
+    // Text of a label of an union, in the way that it is expected by UnionType.
+    std::string label_text(
+            const std::shared_ptr<peg::Ast>& node,
+            std::shared_ptr<Module>& outer,
+            const DynamicType& discriminator)
+    {
+        using namespace peg::udl;
+        if (node->tag == "CASE_LABEL"_) // Otherwise, it is reduced to its expression
+        {
+            return "default";
+        }
+
+        const std::string token(node->token.data(), node->token.size());
+        if (node->tag == "SCOPED_NAME"_ && !outer->has_constant(token))
+        {
+            return token; // It must be an enumerator of the discriminator
+        }
+
+        const DynamicType& type = discriminator.kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(discriminator).rget()
+                : discriminator;
+        DynamicData value = solve_expr(
+            type.kind() == TypeKind::ENUMERATION_TYPE ? primitive_type<uint32_t>() : type, node, outer);
+        switch (value.type().kind())
+        {
+            case TypeKind::BOOLEAN_TYPE:
+                return value.value<bool>() ? "TRUE" : "FALSE";
+            case TypeKind::CHAR_8_TYPE:
+                return std::string(1, value.value<char>());
+            default:
+                return value.cast<std::string>();
+        }
+    }
+
     void case_member_def(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
@@ -2131,6 +2158,19 @@ private:
         }
     }
 
+    size_t to_dimension(
+            int64_t value,
+            const std::shared_ptr<peg::Ast>& node) const
+    {
+        if (value < 0)
+        {
+            const std::string message = "Only a positive integer number can be used as dimension.";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+            throw exception(message, node);
+        }
+        return static_cast<size_t>(value);
+    }
+
     size_t get_dimension(
             const std::string& value,
             std::shared_ptr<Module>& outer,
@@ -2141,25 +2181,25 @@ private:
         switch (c_data.type().kind())
         {
             case TypeKind::INT_8_TYPE:
-                dim = c_data.value<int8_t>();
+                dim = to_dimension(c_data.value<int8_t>(), node);
                 break;
             case TypeKind::UINT_8_TYPE:
                 dim = c_data.value<uint8_t>();
                 break;
             case TypeKind::INT_16_TYPE:
-                dim = c_data.value<int16_t>();
+                dim = to_dimension(c_data.value<int16_t>(), node);
                 break;
             case TypeKind::UINT_16_TYPE:
                 dim = c_data.value<uint16_t>();
                 break;
             case TypeKind::INT_32_TYPE:
-                dim = c_data.value<int32_t>();
+                dim = to_dimension(c_data.value<int32_t>(), node);
                 break;
             case TypeKind::UINT_32_TYPE:
                 dim = c_data.value<uint32_t>();
                 break;
             case TypeKind::INT_64_TYPE:
-                dim = c_data.value<int64_t>();
+                dim = to_dimension(c_data.value<int64_t>(), node);
                 break;
             case TypeKind::UINT_64_TYPE:
                 dim = c_data.value<uint64_t>();
-- 
2.43.0


From 3efed9d5017b3c723b5e1eb5eec79cf969b25c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:41 +0000
Subject: [PATCH 083/108] fix: constants given by others of different type, or
 unknown, and wide character labels, were wrong in the IDL parser

---
 include/xtypes/idl/parser.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 860b8e9..5e7016b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1385,8 +1385,19 @@ private:
                 break;
             }
             case "SCOPED_NAME"_:
-                result = outer->constant(std::string(ast->token.data(), ast->token.size()));
+            {
+                const std::string name(ast->token.data(), ast->token.size());
+                if (!outer->has_constant(name))
+                {
+                    const std::string message = "Constant " + name + " is unknown";
+                    context_->log(log::LogLevel::xERROR, "EXCEPTION", message, ast);
+                    throw exception(message, ast);
+                }
+                // It may have another type, whose value is converted
+                DynamicData temp(outer->constant(name), type);
+                result = temp;
                 break;
+            }
             case "UNARY_EXPR"_:
             {
                 result = solve_expr(type, ast->nodes[1], outer);
@@ -1800,6 +1811,10 @@ private:
                 return value.value<bool>() ? "TRUE" : "FALSE";
             case TypeKind::CHAR_8_TYPE:
                 return std::string(1, value.value<char>());
+            case TypeKind::WIDE_CHAR_TYPE:
+                return detail::to_utf8(std::wstring(1, value.value<wchar_t>()));
+            case TypeKind::CHAR_16_TYPE:
+                return detail::to_utf8(std::u16string(1, value.value<char16_t>()));
             default:
                 return value.cast<std::string>();
         }
-- 
2.43.0


From 18dfbe56c62c6a8e58ba2c712ae19f06de2fbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 084/108] fix: the complement of an unsigned constant was
 refused by the IDL parser

---
 include/xtypes/idl/parser.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 5e7016b..a643601 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1408,8 +1408,7 @@ private:
                 }
                 else if (ast->nodes[0]->tag == "NEG_OP"_)
                 {
-                    DynamicData temp(~result);
-                    result = temp;
+                    result = complement(result);
                 }
             }
             break;
@@ -1434,6 +1433,26 @@ private:
         return result;
     }
 
+    DynamicData complement(
+            const DynamicData& data) const
+    {
+        switch (data.type().kind())
+        {
+            case TypeKind::UINT_8_TYPE:
+            case TypeKind::UINT_16_TYPE:
+            case TypeKind::UINT_32_TYPE:
+            case TypeKind::UINT_64_TYPE:
+            {
+                // The operator isn't available for unsigned types: ~x == -x - 1
+                DynamicData result(DynamicData(data.type()) - data);
+                --result;
+                return result;
+            }
+            default:
+                return ~data;
+        }
+    }
+
     // The integer divisions without result cannot be computed
     void check_divisor(
             const DynamicData& lho,
-- 
2.43.0


From cee7f42769c5046e4fe800d9ba3eebd255083902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:19 +0000
Subject: [PATCH 085/108] fix: the typedefs and forward declarations could not
 have the name of something of the outer modules in the IDL parser

---
 include/xtypes/idl/parser.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index a643601..2fbbfef 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -843,7 +843,8 @@ private:
             const std::shared_ptr<peg::Ast>& ast,
             const std::string_view& identifier,
             std::shared_ptr<Module>& scope,
-            bool ignore_already_used = false)
+            bool ignore_already_used = false,
+            bool outer_scopes = true)
     {
         if (identifier.find("_") == 0)
         {
@@ -866,7 +867,7 @@ private:
             context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
         }
 
-        if (scope->has_symbol(std::string(identifier.data(), identifier.size())))
+        if (scope->has_symbol(std::string(identifier.data(), identifier.size()), outer_scopes))
         {
             std::stringstream message;
             message << "The identifier \"" << identifier << "\" is already used.";
@@ -977,7 +978,7 @@ private:
                     if (node->tag == "ARRAY_DECLARATOR"_)
                     {
                         std::vector<size_t> dimensions;
-                        name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
+                        name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition, false);
                         for (size_t idx = 1; idx < node->nodes.size(); ++idx)
                         {
                             dimensions.push_back(get_dimension(outer, node->nodes[idx]));
@@ -986,7 +987,7 @@ private:
                     }
                     else
                     {
-                        name = resolve_identifier(node, node->token, outer, context_->ignore_redefinition);
+                        name = resolve_identifier(node, node->token, outer, context_->ignore_redefinition, false);
                     }
                     outer->create_alias(std::move(alias), name);
                 };
@@ -1555,7 +1556,7 @@ private:
             std::shared_ptr<Module>& outer)
     {
         using namespace peg::udl;
-        std::string name = resolve_identifier(ast, ast->token, outer);
+        std::string name = resolve_identifier(ast, ast->token, outer, false, false);
         if (outer->has_symbol(name, false))
         {
             std::stringstream message;
@@ -1576,7 +1577,7 @@ private:
             std::shared_ptr<Module>& outer)
     {
         using namespace peg::udl;
-        std::string name = resolve_identifier(ast, ast->token, outer);
+        std::string name = resolve_identifier(ast, ast->token, outer, false, false);
         if (outer->has_symbol(name, false))
         {
             std::stringstream message;
-- 
2.43.0


From c70e70eeaaa8f817f0f22dcfc6398f5790fd8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 086/108] fix: the identifiers that begin with a keyword
 followed by a digit, or with TRUE or FALSE, were syntax errors in the IDL
 parser

---
 include/xtypes/idl/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 13c8593..c319910 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -186,7 +186,7 @@ ANNOTATION_APPL_PARAMS <- ANNOTATION_APPL_PARAM (COMMA ANNOTATION_APPL_PARAM)* /
 ANNOTATION_APPL_PARAM <- IDENTIFIER EQUAL_OP CONST_EXPR / CONST_EXPR
 
 # LITERALS
-BOOLEAN_LITERAL <- < "TRUE" / "FALSE" >
+BOOLEAN_LITERAL <- < "TRUE" / "FALSE" > END_KW
 INTEGER_LITERAL <- < OCT_LITERAL / HEX_LITERAL / DEC_LITERAL >
 DEC_LITERAL <- [1-9] DECIMAL_DIGIT* / '0'
 OCT_LITERAL <- '0' OCTAL_DIGIT+
@@ -245,7 +245,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~ES_UNICODE_CHAR <- HEX_DIGIT HEX_DIGIT? HEX_DIGIT? HEX_DIGIT?
 
 # Auxiliar tokens
-~END_KW <- !IDENTIFIER
+~END_KW <- ![0-9a-zA-Z_]
 # KEYWORDS
 ~KW_CONST <- WS? < "const" > END_KW WS?
 ~KW_MODULE <- WS? < "module" > END_KW WS?
-- 
2.43.0


From 90ff455336b394538abcd091aa6b07752bacd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:07 +0000
Subject: [PATCH 087/108] fix: the escaped identifiers could not be referred
 to, and weren't recognized for constants and enumerations, in the IDL parser

---
 include/xtypes/idl/parser.hpp | 46 ++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 2fbbfef..d55f0a2 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -884,6 +884,22 @@ private:
         return std::string(identifier.data(), identifier.size());
     }
 
+    // Name of a symbol without the escapes: as in the other declarations, the underscore of the escaped identifiers is removed.
+    static std::string referred_name(
+            const std::string_view& token)
+    {
+        std::string result;
+        for (size_t pos = 0; pos < token.size(); ++pos)
+        {
+            const bool first = pos == 0 || token[pos - 1] == ':';
+            if (token[pos] != '_' || !first)
+            {
+                result += token[pos];
+            }
+        }
+        return result;
+    }
+
     void to_lower(
             std::string& str)
     {
@@ -1013,7 +1029,7 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
-        const auto& identifier = ast->nodes[1]->token;
+        const std::string identifier = referred_name(ast->nodes[1]->token);
         DynamicData expr(*type);
         expr = solve_expr(*type, ast->nodes[2], outer);
 
@@ -1021,7 +1037,7 @@ private:
         message << "Found const " << type->name() << " " << identifier << " = " << expr.to_string();
         context_->log(log::LogLevel::xDEBUG, "DECLARATION", message.str(), ast);
 
-        outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
+        outer->create_constant(identifier, expr);
     }
 
     // Text between the quotes of a character or string literal, with its escape sequences replaced. As UTF-8.
@@ -1387,7 +1403,7 @@ private:
             }
             case "SCOPED_NAME"_:
             {
-                const std::string name(ast->token.data(), ast->token.size());
+                const std::string name = referred_name(ast->token);
                 if (!outer->has_constant(name))
                 {
                     const std::string message = "Constant " + name + " is unknown";
@@ -1525,8 +1541,7 @@ private:
     {
         using namespace peg::udl;
 
-        const auto& name_view = ast->nodes[0]->token;
-        const std::string name(name_view.data(), name_view.size());
+        const std::string name = referred_name(ast->nodes[0]->token);
         EnumerationType<uint32_t> result(name); // TODO: Support other Enum types?, the grammar should be upgraded.
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
@@ -1535,8 +1550,7 @@ private:
         {
             // The identifier comes after the annotations, if any
             const auto& node = ast->nodes[idx];
-            const auto& token_view = node->nodes.empty() ? node->token : node->nodes.back()->token;
-            const std::string token(token_view.data(), token_view.size());
+            const std::string token = referred_name(node->nodes.empty() ? node->token : node->nodes.back()->token);
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
                     ast);
@@ -1603,7 +1617,7 @@ private:
         using namespace peg::udl;
         std::string name;
         std::vector<Member> member_list;
-        std::string_view parent_name;
+        std::string parent_name;
         for (const auto& node : ast->nodes)
         {
             switch (node->original_tag)
@@ -1616,15 +1630,15 @@ private:
                     break;
                 }
                 case "INHERITANCE"_:
-                    if (outer->has_structure(std::string(node->token.data(), node->token.size())))
+                    if (outer->has_structure(referred_name(node->token)))
                     {
-                        parent_name = node->token;
+                        parent_name = referred_name(node->token);
                     }
                     else
                     {
                         std::stringstream message;
                         message << "Struct \"" << name << "\" cannot inherit from \""
-                                << node->token.data() << "\": Struct was not found.";
+                                << node->token << "\": Struct was not found.";
                         context_->log(log::LogLevel::xERROR, "STRUCT_DEF", message.str(), ast);
                         throw exception(message.str(), ast);
                     }
@@ -1665,7 +1679,7 @@ private:
         if (!parent_name.empty())
         {
             // Replace already existing struct with a new one which inherits
-            StructType replace_struct(name, &outer->structure(std::string(parent_name.data(), parent_name.size())));
+            StructType replace_struct(name, &outer->structure(parent_name));
             outer->structure(std::move(replace_struct), true);
             struct_type = &outer->structure(name);
         }
@@ -1814,7 +1828,7 @@ private:
             return "default";
         }
 
-        const std::string token(node->token.data(), node->token.size());
+        const std::string token = referred_name(node->token);
         if (node->tag == "SCOPED_NAME"_ && !outer->has_constant(token))
         {
             return token; // It must be an enumerator of the discriminator
@@ -2068,8 +2082,7 @@ private:
     {
         using namespace peg::udl;
 
-        const auto& token_view = node->token;
-        const std::string token(token_view.data(), token_view.size());
+        const std::string token = referred_name(node->token);
 
         switch (node->tag)
         {
@@ -2252,8 +2265,7 @@ private:
             std::shared_ptr<Module>& outer,
             const std::shared_ptr<peg::Ast>& node)
     {
-        const auto& token_view = node->token;
-        const std::string token(token_view.data(), token_view.size());
+        const std::string token = referred_name(node->token);
 
         if (token.empty())
         {
-- 
2.43.0


From e689c6c60b6cbc3e9ab09275277ff52d6b3d2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 088/108] fix: a definition with several consecutive lines of
 comments was a syntax error once preprocessed

---
 include/xtypes/idl/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index d55f0a2..30d8895 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -72,7 +72,7 @@
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_ERRORREDIR " 2>nul"
 #   define EPROSIMA_PLATFORM_PIPE_OPEN_FLAGS "rt"
 #else
-#   define EPROSIMA_PLATFORM_PREPROCESSOR "cpp -H"
+#   define EPROSIMA_PLATFORM_PREPROCESSOR "cpp -P -H"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_STRATEGY preprocess_strategy::pipe_stdin
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_INCLUDES "-I"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_ERRORREDIR " 2>/dev/null"
-- 
2.43.0


From dea3cfc93bd20cf9312b129a781f4b49907a3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 089/108] fix: the IDL parser used the context of its last text
 after its destruction

---
 include/xtypes/idl/parser.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 30d8895..d64aa3b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -472,8 +472,11 @@ public:
 
     inline void clear_context();
 
+    inline void detach_parser();
+
     ~Context()
     {
+        detach_parser();
         clear_context();
     }
 
@@ -2418,6 +2421,15 @@ private:
 inline std::shared_ptr<Parser> Parser::instance_;
 inline std::mutex Parser::mtx_;
 
+void Context::detach_parser()
+{
+    // The parser cannot use this context anymore
+    if (instance_ && instance_->context_ == this)
+    {
+        instance_->context_ = nullptr;
+    }
+}
+
 void Context::clear_context()
 {
     if (clear)
-- 
2.43.0


From 1f8afd82f11275d0a4bacf67522b6ce9d8516eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 090/108] fix: the constants of an enumeration were generated
 as IDL with a number, which isn't valid

---
 include/xtypes/idl/generator.hpp         | 21 +++++++++++++++++++++
 include/xtypes/idl/generator_deptree.hpp | 12 ++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 8ac851b..ad88398 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -483,6 +483,21 @@ inline std::string float_literal(
     return result;
 }
 
+/// \brief Returns the name of the value of an enumeration, or an empty string if it doesn't have one.
+inline std::string enumerator_name(
+        ReadableDynamicDataRef data)
+{
+    switch (data.type().memory_size())
+    {
+        case sizeof(uint8_t):
+            return static_cast<const EnumerationType<uint8_t>&>(data.type()).enumerator(data.value<uint8_t>());
+        case sizeof(uint16_t):
+            return static_cast<const EnumerationType<uint16_t>&>(data.type()).enumerator(data.value<uint16_t>());
+        default:
+            return static_cast<const EnumerationType<uint32_t>&>(data.type()).enumerator(data.value<uint32_t>());
+    }
+}
+
 inline std::string get_const_value(
         ReadableDynamicDataRef data)
 {
@@ -544,6 +559,12 @@ inline std::string get_const_value(
         case TypeKind::WIDE_CHAR_TYPE:
             ss << prefix << escape_literal(detail::to_utf8(std::wstring(1, data.value<wchar_t>())), '\'') << suffix;
             break;
+        case TypeKind::ENUMERATION_TYPE:
+        {
+            const std::string enumerator = enumerator_name(data);
+            ss << (enumerator.empty() ? data.cast<std::string>() : enumerator);
+            break;
+        }
         default:
             ss << prefix << escape_literal(data.cast<std::string>(), '"') << suffix;
     }
diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index b6e0ddf..8fd8cce 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -308,8 +308,16 @@ public:
                     if (pair.first == name() && !module_.is_const_from_enum(name()))
                         // Don't add as const the "fake" enumeration consts.
                     {
-                        ss << std::string(4 * tabs, ' ') << "const " << type_name(this, pair.second.type())
-                           << " " << pair.first  << " = " << get_const_value(pair.second) << ";" << std::endl;
+                        const std::string const_type = type_name(this, pair.second.type());
+                        std::string value = get_const_value(pair.second);
+                        const size_t scope_end = const_type.rfind("::");
+                        if (pair.second.type().kind() == TypeKind::ENUMERATION_TYPE
+                                && scope_end != std::string::npos && !std::isdigit(value.front()))
+                        {
+                            value = const_type.substr(0, scope_end + 2) + value; // Scope of the enumerators
+                        }
+                        ss << std::string(4 * tabs, ' ') << "const " << const_type
+                           << " " << pair.first  << " = " << value << ";" << std::endl;
                         break;
                     }
                 }
-- 
2.43.0


From df871e3f21629f1d31134d78bb5bea9fb9eb9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:26 +0000
Subject: [PATCH 091/108] fix: the types hidden by another definition of the
 same name weren't generated with their scope, and could make the generator
 recurse forever

---
 include/xtypes/idl/generator.hpp         |  2 +-
 include/xtypes/idl/generator_deptree.hpp | 60 ++++++++++++++++++++++--
 2 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index ad88398..783e03d 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -124,7 +124,7 @@ inline std::string type_scope(
     using namespace dependencytree;
     DependencyModule* from = node->from();
 
-    if (from->opts_for_dependency_setting(type) && !from->module().has_symbol(type.name(), false)
+    if (from->opts_for_dependency_setting(type) && !from->declares(type)
         && from->module().symbol_count(type.name()) != 1)
     {
         const DependencyModule* dep_mod = from->search_module_with_node(type.name());
diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 8fd8cce..3a2bf3e 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -803,16 +803,18 @@ public:
     /// \brief Set a dependency between two DependencyNodes.
     /// \param[in] dependent The DependencyNode objects which depends on master.
     /// \param[in] master Name of the DependencyNode to be found in the tree.
+    /// \param[in] hidden The master belongs to the root module, and this module has a definition of the same name.
     void set_dependency(
             DependencyNode& dependent,
-            const std::string& master)
+            const std::string& master,
+            bool hidden = false)
     {
-        if (dependent.name() == master) // Cannot add dependency to itself
+        if (dependent.name() == master && !hidden) // Cannot add dependency to itself
         {
             return;
         }
 
-        bool scoped_this = true;
+        bool scoped_this = !hidden;
         std::string unscoped_master, master_scope;
         if (master.find("::") != std::string::npos)
         {
@@ -882,6 +884,56 @@ public:
             ||  kind == TypeKind::UNION_TYPE);
     }
 
+    /// \brief Check if a type used in this module, whose name isn't scoped, is one of this module's definitions.
+    /// \param[in] type The DynamicType to be checked.
+    /// \returns False if another definition of this module hides the type of the root module that has the same name.
+    bool declares(
+            const DynamicType& type) const
+    {
+        if (!module_.has_symbol(type.name(), false))
+        {
+            return false;
+        }
+
+        const DependencyNode* root_node = d_root_->find_type_node(type.name());
+        if (this == d_root_.get() || root_node == nullptr)
+        {
+            return true;
+        }
+
+        const DependencyNode* node = find_type_node(type.name());
+        if (node == nullptr || node->type().kind() != type.kind()
+                || node->type().is_compatible(type) != TypeConsistency::EQUALS)
+        {
+            return false;
+        }
+        if (type.kind() == TypeKind::ENUMERATION_TYPE)
+        {
+            // All the enumerations of the same size are compatible
+            return static_cast<const EnumerationType<uint32_t>&>(type).enumerators()
+                   == static_cast<const EnumerationType<uint32_t>&>(node->type()).enumerators();
+        }
+        // A structure may have the members of the one that it hides, if it inherits from it
+        return type.kind() != TypeKind::STRUCTURE_TYPE || static_cast<const StructType&>(type).has_parent()
+               == static_cast<const StructType&>(node->type()).has_parent();
+    }
+
+    /// \brief Find the definition of a type of this module.
+    /// \param[in] name Unscoped name of the type.
+    /// \returns A pointer to the definition, or nullptr if there isn't any.
+    const DependencyNode* find_type_node(
+            const std::string& name) const
+    {
+        for (const auto& node : node_set_)
+        {
+            if (node.kind() != ModuleElementKind::xCONST && node.name() == name)
+            {
+                return &node;
+            }
+        }
+        return nullptr;
+    }
+
     /// \brief Wrapper method to set dependency based on DynamicType object.
     /// If the DynamicType does not opt for dependency setting (i.e. is constructed),
     /// no dependency is set.
@@ -895,7 +947,7 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master);
+            set_dependency(node, master, module_.has_symbol(master, false) && !declares(type));
         }
     }
 
-- 
2.43.0


From 4897d3120d61cb531b6f7d8cb287d3b9b052cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 092/108] fix: the scopes that begin with a module hidden by
 another one were generated without '::'

---
 include/xtypes/idl/generator.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 783e03d..5560498 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -133,6 +133,25 @@ inline std::string type_scope(
     return std::string();
 }
 
+/// \brief Writes a scoped name from the root if the first of its modules is hidden by another one.
+inline std::string visible_name(
+        dependencytree::DependencyNode* node,
+        const std::string& name)
+{
+    const size_t scope_end = name.find("::");
+    if (node == nullptr || scope_end == std::string::npos || scope_end == 0)
+    {
+        return name;
+    }
+    const std::string first = name.substr(0, scope_end);
+    const dependencytree::DependencyModule* module = node->from();
+    while (module->has_outer() && !module->module().has_symbol(first, false))
+    {
+        module = module->outer();
+    }
+    return (module->has_outer() ? "::" : "") + name;
+}
+
 inline std::string type_name(
         dependencytree::DependencyNode* node,
         const DynamicType& type,
@@ -190,7 +209,7 @@ inline std::string type_name(
 
         if (type.kind() == TypeKind::ALIAS_TYPE)
         {
-            ss << static_cast<const AliasType&>(type).name();
+            ss << visible_name(node, static_cast<const AliasType&>(type).name());
         }
         else
         {
@@ -205,7 +224,7 @@ inline std::string type_name(
                 }
                 else
                 {
-                    ss << type_name;
+                    ss << visible_name(node, type_name);
                 }
             }
             else
@@ -339,7 +358,8 @@ inline std::string structure(
     ss << std::string(tabs * 4, ' ') << "struct " << name;
     if (type.has_parent())
     {
-        ss << " : " << generator::type_scope(struct_node, type.parent()) << type.parent().name();
+        ss << " : " << generator::type_scope(struct_node, type.parent())
+           << visible_name(struct_node, type.parent().name());
     }
     ss << std::endl << std::string(tabs * 4, ' ') << "{" << std::endl;
 
-- 
2.43.0


From 05c064e94f789cc2c30a86dc4364df5c59f7009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 093/108] fix: the minimum of int64 could not be written in an
 IDL constant

---
 include/xtypes/idl/parser.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index d64aa3b..0e4ea08 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -46,6 +46,7 @@
 #include <filesystem>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <regex>
@@ -1250,7 +1251,8 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int64_t value = static_cast<int64_t>(std::strtoll(literal.data(), nullptr, base));
+                // Unsigned, to read the minimum value, whose sign is applied later
+                int64_t value = static_cast<int64_t>(std::strtoull(literal.data(), nullptr, base));
                 data = value;
                 break;
             }
@@ -1423,8 +1425,13 @@ private:
                 result = solve_expr(type, ast->nodes[1], outer);
                 if (ast->nodes[0]->tag == "SUB_OP"_)
                 {
-                    DynamicData temp(-result);
-                    result = temp;
+                    // The absolute value of a minimum is read as the minimum itself
+                    if (!is_minimum<int32_t>(result, TypeKind::INT_32_TYPE)
+                        && !is_minimum<int64_t>(result, TypeKind::INT_64_TYPE))
+                    {
+                        DynamicData temp(-result);
+                        result = temp;
+                    }
                 }
                 else if (ast->nodes[0]->tag == "NEG_OP"_)
                 {
@@ -1453,6 +1460,14 @@ private:
         return result;
     }
 
+    template<typename T>
+    bool is_minimum(
+            const DynamicData& data,
+            TypeKind kind) const
+    {
+        return data.type().kind() == kind && data.value<T>() == std::numeric_limits<T>::min();
+    }
+
     DynamicData complement(
             const DynamicData& data) const
     {
-- 
2.43.0


From c42205ce9e8cd0dcd9f4a512b99e8cce40024bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 094/108] fix: the constant expressions of the IDL parser
 overflowed, or shifted more bits than there are

---
 include/xtypes/idl/parser.hpp | 89 +++++++++++++++++++++++++++++------
 1 file changed, 74 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 0e4ea08..eec2e32 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1488,36 +1488,75 @@ private:
         }
     }
 
-    // The integer divisions without result cannot be computed
-    void check_divisor(
+    // The operations of integers are done with 64 bits, without sign, so that they are defined for any operands
+    template<typename T>
+    DynamicData integer_operation(
             const DynamicData& lho,
             const DynamicData& rho,
             const std::shared_ptr<peg::Ast>& op) const
     {
-        const TypeKind kind = rho.type().kind();
-        if (kind == TypeKind::FLOAT_32_TYPE || kind == TypeKind::FLOAT_64_TYPE || kind == TypeKind::FLOAT_128_TYPE)
-        {
-            return;
-        }
+        using namespace peg::udl;
+        const T lvalue = lho.value<T>();
+        const T rvalue = rho.value<T>();
+        const uint64_t left = static_cast<uint64_t>(lvalue);
+        const uint64_t right = static_cast<uint64_t>(rvalue);
 
         std::string message;
-        if (rho == DynamicData(rho.type()))
+        if ((op->tag == "DIV_OP"_ || op->tag == "MOD_OP"_) && rvalue == T())
         {
             message = "Division by zero in a constant expression.";
         }
-        else if ((kind == TypeKind::INT_32_TYPE && rho.value<int32_t>() == -1
-                && lho.value<int32_t>() == std::numeric_limits<int32_t>::min())
-                || (kind == TypeKind::INT_64_TYPE && rho.value<int64_t>() == -1
-                && lho.value<int64_t>() == std::numeric_limits<int64_t>::min()))
+        else if ((op->tag == "DIV_OP"_ || op->tag == "MOD_OP"_) && std::is_signed<T>::value
+                && right == std::numeric_limits<uint64_t>::max() && lvalue == std::numeric_limits<T>::min())
         {
             message = "The result of a division in a constant expression is out of range.";
         }
-
+        else if ((op->tag == "LSHIFT_OP"_ || op->tag == "RSHIFT_OP"_) && right >= 64)
+        {
+            message = "The bits of a shift in a constant expression are out of range.";
+        }
         if (!message.empty())
         {
             context_->log(log::LogLevel::xERROR, "EXCEPTION", message, op);
             throw exception(message, op);
         }
+
+        DynamicData result(lho.type());
+        switch (op->tag)
+        {
+            case "MULT_OP"_:
+                result = static_cast<T>(left * right);
+                break;
+            case "DIV_OP"_:
+                result = static_cast<T>(lvalue / rvalue);
+                break;
+            case "MOD_OP"_:
+                result = static_cast<T>(lvalue % rvalue);
+                break;
+            case "ADD_OP"_:
+                result = static_cast<T>(left + right);
+                break;
+            case "SUB_OP"_:
+                result = static_cast<T>(left - right);
+                break;
+            case "LSHIFT_OP"_:
+                result = static_cast<T>(left << right);
+                break;
+            case "RSHIFT_OP"_:
+                result = static_cast<T>(static_cast<typename std::conditional<std::is_signed<T>::value,
+                        int64_t, uint64_t>::type>(lvalue) >> right);
+                break;
+            case "AND_OP"_:
+                result = static_cast<T>(left & right);
+                break;
+            case "XOR_OP"_:
+                result = static_cast<T>(left ^ right);
+                break;
+            default: // OR_OP
+                result = static_cast<T>(left | right);
+                break;
+        }
+        return result;
     }
 
     DynamicData apply_operator(
@@ -1526,15 +1565,35 @@ private:
             const std::shared_ptr<peg::Ast>& op) const
     {
         using namespace peg::udl;
+        switch (lho.type().kind())
+        {
+            case TypeKind::INT_8_TYPE:
+                return integer_operation<int8_t>(lho, rho, op);
+            case TypeKind::UINT_8_TYPE:
+                return integer_operation<uint8_t>(lho, rho, op);
+            case TypeKind::INT_16_TYPE:
+                return integer_operation<int16_t>(lho, rho, op);
+            case TypeKind::UINT_16_TYPE:
+                return integer_operation<uint16_t>(lho, rho, op);
+            case TypeKind::INT_32_TYPE:
+                return integer_operation<int32_t>(lho, rho, op);
+            case TypeKind::UINT_32_TYPE:
+                return integer_operation<uint32_t>(lho, rho, op);
+            case TypeKind::INT_64_TYPE:
+                return integer_operation<int64_t>(lho, rho, op);
+            case TypeKind::UINT_64_TYPE:
+                return integer_operation<uint64_t>(lho, rho, op);
+            default:
+                break;
+        }
+
         switch (op->tag)
         {
             case "MULT_OP"_:
                 return lho * rho;
             case "DIV_OP"_:
-                check_divisor(lho, rho, op);
                 return lho / rho;
             case "MOD_OP"_:
-                check_divisor(lho, rho, op);
                 return lho % rho;
             case "ADD_OP"_:
                 return lho + rho;
-- 
2.43.0


From e98c2225c7614561c5bfedf81a742439908676bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:10 +0000
Subject: [PATCH 095/108] fix: the identifiers 'linux' and 'unix' were replaced
 by the preprocessor

---
 include/xtypes/idl/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index eec2e32..e2a17fe 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -73,7 +73,7 @@
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_ERRORREDIR " 2>nul"
 #   define EPROSIMA_PLATFORM_PIPE_OPEN_FLAGS "rt"
 #else
-#   define EPROSIMA_PLATFORM_PREPROCESSOR "cpp -P -H"
+#   define EPROSIMA_PLATFORM_PREPROCESSOR "cpp -P -H -Ulinux -Uunix"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_STRATEGY preprocess_strategy::pipe_stdin
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_INCLUDES "-I"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_ERRORREDIR " 2>/dev/null"
-- 
2.43.0


From 128cb6abb33f56610d870fe147107878bd2aae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:04 +0000
Subject: [PATCH 096/108] fix: the IDL texts longer than what fits in a command
 were refused by the preprocessor

---
 include/xtypes/idl/parser.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index e2a17fe..62df28f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -72,12 +72,14 @@
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_INCLUDES "/I"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_ERRORREDIR " 2>nul"
 #   define EPROSIMA_PLATFORM_PIPE_OPEN_FLAGS "rt"
+#   define EPROSIMA_PLATFORM_PREPROCESSOR_MAX_ARGUMENT 4096
 #else
 #   define EPROSIMA_PLATFORM_PREPROCESSOR "cpp -P -H -Ulinux -Uunix"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_STRATEGY preprocess_strategy::pipe_stdin
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_INCLUDES "-I"
 #   define EPROSIMA_PLATFORM_PREPROCESSOR_ERRORREDIR " 2>/dev/null"
 #   define EPROSIMA_PLATFORM_PIPE_OPEN_FLAGS "r"
+#   define EPROSIMA_PLATFORM_PREPROCESSOR_MAX_ARGUMENT 65536
 #endif
 
 namespace peg {
@@ -368,13 +370,24 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     {
         args += include_flag + quote_for_shell(inc_path) + " ";
     }
-    std::string cmd = "printf '%s\\n' " + quote_for_shell(idl_string) + " | "
-            + preprocessor_exec + " " + args + error_redir;
 
     log(log::LogLevel::xDEBUG, "PREPROCESS",
             "Calling preprocessor '" + preprocessor_exec + "' for an IDL string.");
 
-    return exec(cmd);
+    const std::string quoted = quote_for_shell(idl_string);
+    if (quoted.size() > EPROSIMA_PLATFORM_PREPROCESSOR_MAX_ARGUMENT)
+    {
+        // It is too long for a command
+        auto [os, tmp] = get_temporary_file();
+        os << idl_string << std::endl;
+        os.close();
+        const std::string processed = exec(
+            preprocessor_exec + " " + args + error_redir + " < " + quote_for_shell(tmp.string()));
+        std::filesystem::remove(tmp);
+        return processed;
+    }
+
+    return exec("printf '%s\\n' " + quoted + " | " + preprocessor_exec + " " + args + error_redir);
 }
 
 // preprocessing using files
-- 
2.43.0


From 85825a6acc6d0054840a95e7aecb0055d939890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:01 +0000
Subject: [PATCH 097/108] fix: the floating point constants out of the range of
 the integers they were converted to in the IDL parser

---
 include/xtypes/idl/parser.hpp | 48 ++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 62df28f..901d244 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -41,6 +41,7 @@
 #endif //_MSC_VER
 
 #include <array>
+#include <cmath>
 #include <cstring>
 #include <exception>
 #include <filesystem>
@@ -1429,7 +1430,9 @@ private:
                     throw exception(message, ast);
                 }
                 // It may have another type, whose value is converted
-                DynamicData temp(outer->constant(name), type);
+                DynamicData constant = outer->constant(name);
+                check_conversion(constant, type, ast);
+                DynamicData temp(constant, type);
                 result = temp;
                 break;
             }
@@ -1473,6 +1476,49 @@ private:
         return result;
     }
 
+    // The floating point values that an integer cannot have cannot be converted
+    void check_conversion(
+            const DynamicData& data,
+            const DynamicType& type,
+            const std::shared_ptr<peg::Ast>& ast) const
+    {
+        long double value = 0;
+        switch (data.type().kind())
+        {
+            case TypeKind::FLOAT_32_TYPE:
+                value = data.value<float>();
+                break;
+            case TypeKind::FLOAT_64_TYPE:
+                value = data.value<double>();
+                break;
+            case TypeKind::FLOAT_128_TYPE:
+                value = data.value<long double>();
+                break;
+            default:
+                return;
+        }
+        switch (type.kind())
+        {
+            case TypeKind::FLOAT_32_TYPE:
+            case TypeKind::FLOAT_64_TYPE:
+            case TypeKind::FLOAT_128_TYPE:
+            case TypeKind::BOOLEAN_TYPE:
+                return;
+            default:
+                break;
+        }
+
+        const bool is_signed = type.kind() == TypeKind::INT_8_TYPE || type.kind() == TypeKind::INT_16_TYPE
+                || type.kind() == TypeKind::INT_32_TYPE || type.kind() == TypeKind::INT_64_TYPE;
+        const long double limit = std::ldexp(1.0L, static_cast<int>(type.memory_size() * 8 - (is_signed ? 1 : 0)));
+        if (!(value > (is_signed ? -limit - 1 : -1) && value < limit))
+        {
+            const std::string message = "The value of a constant is out of the range of '" + type.name() + "'";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, ast);
+            throw exception(message, ast);
+        }
+    }
+
     template<typename T>
     bool is_minimum(
             const DynamicData& data,
-- 
2.43.0


From ce59af030d1cd060e64fc24c76fb0ab559f64123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:42 +0000
Subject: [PATCH 098/108] fix: the label of a union was computed from types
 that can't be its discriminator

---
 include/xtypes/UnionType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index f08d39d..70bb171 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -67,7 +67,7 @@ public:
             const DynamicType& discriminator)
         : AggregationType(TypeKind::UNION_TYPE, name)
         , memory_size_(0)
-        , default_value_(default_union_label(discriminator.memory_size()))
+        , default_value_(check_discriminator(discriminator) ? default_union_label(discriminator.memory_size()) : 0)
         , invalid_value_(default_value_ - 1)
         , default_(invalid_value_)
         , maximum_case_member_memory_(0)
-- 
2.43.0


From a283296327ea0b9f8f997b14ed95311d84e9bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:11 +0000
Subject: [PATCH 099/108] fix: nothing told that the preprocessor of the IDL
 texts had failed

---
 include/xtypes/idl/parser.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 901d244..cbaf80c 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -344,20 +344,28 @@ private:
             throw std::runtime_error("popen() failed!");
         }
 
+        std::string result;
     #ifdef _MSC_VER
         std::filebuf buff(pipe.get());
         std::ostringstream os;
         os << &buff;
-        return os.str();
+        result = os.str();
     #else
         std::array<char, 256> buffer;
-        std::string result;
         while (fgets(buffer.data(), buffer.size(), pipe.get()) != nullptr)
         {
             result += buffer.data();
         }
-        return result;
     #endif // _MSC_VER
+
+        if (pclose(pipe.release()) != 0)
+        {
+            // What it has written may not be the whole text
+            log(log::LogLevel::xERROR, "PREPROCESS",
+                    "The preprocessor '" + preprocessor_exec + "' failed.");
+        }
+
+        return result;
     }
 };
 
-- 
2.43.0


From a31a5fc76a02260be05362881f1159491a581587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:20 +0000
Subject: [PATCH 100/108] fix: the context of the IDL parser kept the success
 of the previous text when another one was refused by an exception

---
 include/xtypes/idl/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index cbaf80c..8ace139 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -563,11 +563,11 @@ public:
     {
         context.instance_ = shared_from_this();
         context_ = &context;
+        context_->success = false;
         std::shared_ptr<peg::Ast> ast;
 
         if (!parser_.parse(idl_string.c_str(), ast))
         {
-            context_->success = false;
             context_->log(log::LogLevel::xDEBUG, "RESULT",
                     "The parser found errors while parsing.");
             return false;
-- 
2.43.0


From 14e39963ba63fa432b5de7b27cb3329a0210582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:43 +0000
Subject: [PATCH 101/108] fix: an IDL union that was declared before its
 definition was listed as an empty structure

---
 include/xtypes/idl/parser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 8ace139..844f1ed 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1744,14 +1744,13 @@ private:
             throw exception(message.str(), ast);
         }
 
-        // TODO Replace by Unions. Kept as Struct to allow name solving.
-        // Union forward declaration may be an special case of Union,
-        // because they doesn't defines the switch type
-        StructType result(name);
+        // The forward declarations of unions don't define the switch type.
+        // It has none of its members until its definition, which replaces it.
+        UnionType result(name, primitive_type<int32_t>());
         context_->log(log::LogLevel::xDEBUG, "UNION_FW_DCL",
                 "Found forward union declaration: \"" + name + "\"",
                 ast);
-        outer->structure(std::move(result));
+        outer->union_switch(std::move(result));
     }
 
     void struct_def(
@@ -1859,7 +1858,8 @@ private:
                 {
                     type = type_spec(node, outer);
                     UnionType result(name, *type);
-                    outer->union_switch(std::move(result));
+                    const bool forward = outer->has_union(name) && outer->union_switch(name).get_case_members().empty();
+                    outer->union_switch(std::move(result), forward);
                     break;
                 }
                 case "SWITCH_BODY"_:
-- 
2.43.0


From 673e88e6f8c8cdad67127d1ad0dfa1678b7cdd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:09 +0000
Subject: [PATCH 102/108] fix: IDL sizes that don't fit in 32 bits were cut
 silently instead of refused

---
 include/xtypes/idl/parser.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 844f1ed..1935f04 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -2363,6 +2363,19 @@ private:
         return static_cast<size_t>(value);
     }
 
+    size_t check_dimension(
+            size_t value,
+            const std::shared_ptr<peg::Ast>& node) const
+    {
+        if (value > std::numeric_limits<uint32_t>::max())
+        {
+            const std::string message = "The dimension is too big.";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+            throw exception(message, node);
+        }
+        return value;
+    }
+
     size_t get_dimension(
             const std::string& value,
             std::shared_ptr<Module>& outer,
@@ -2417,9 +2430,9 @@ private:
         }
         else if (std::isdigit(static_cast<unsigned char>(token[0])))
         {
-            return std::stoul(token, nullptr, 0); // It may be decimal, octal or hexadecimal
+            return check_dimension(std::stoul(token, nullptr, 0), node); // It may be decimal, octal or hexadecimal
         }
-        return get_dimension(token, outer, node);
+        return check_dimension(get_dimension(token, outer, node), node);
     }
 
     ArrayType::Ptr get_array_type(
-- 
2.43.0


From 3a28cf8e9394a1a3f3040e8edb24e677170f3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:01 +0000
Subject: [PATCH 103/108] fix: an IDL enum, constant or type with the name of
 another one replaced it or was lost silently

---
 include/xtypes/idl/parser.hpp | 41 +++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 1935f04..25484d8 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -910,6 +910,27 @@ private:
         return std::string(identifier.data(), identifier.size());
     }
 
+    // Whether the scope already has a symbol with this name: it isn't allowed unless the context ignores the redefinitions.
+    bool is_redefinition(
+            const std::shared_ptr<peg::Ast>& ast,
+            const std::string& kind,
+            const std::string& name,
+            const std::shared_ptr<Module>& scope) const
+    {
+        if (!scope->has_symbol(name, false))
+        {
+            return false;
+        }
+        const std::string msg = kind + " \"" + name + "\" redefinition.";
+        if (context_->ignore_redefinition)
+        {
+            context_->log(log::LogLevel::xINFO, "REDEFINITION", msg, ast);
+            return true;
+        }
+        context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
+        throw exception(msg, ast);
+    }
+
     // Name of a symbol without the escapes: as in the other declarations, the underscore of the escaped identifiers is removed.
     static std::string referred_name(
             const std::string_view& token)
@@ -1056,6 +1077,10 @@ private:
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
         const std::string identifier = referred_name(ast->nodes[1]->token);
+        if (is_redefinition(ast, "Constant", identifier, outer))
+        {
+            return;
+        }
         DynamicData expr(*type);
         expr = solve_expr(*type, ast->nodes[2], outer);
 
@@ -1690,6 +1715,10 @@ private:
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
                 ast);
+        if (is_redefinition(ast, "Enum", name, outer))
+        {
+            return;
+        }
         for (size_t idx = 1; idx < ast->nodes.size(); ++idx)
         {
             // The identifier comes after the annotations, if any
@@ -1768,6 +1797,10 @@ private:
                 case "IDENTIFIER"_:
                 {
                     name = resolve_identifier(ast, node->token, outer, true);
+                    if (!outer->has_structure(name) && is_redefinition(ast, "Struct", name, outer))
+                    {
+                        return;
+                    }
                     StructType result(name);
                     outer->structure(std::move(result));
                     break;
@@ -1795,6 +1828,10 @@ private:
         if (name.empty() && ast->tag == "IDENTIFIER"_)
         {
             name = resolve_identifier(ast, ast->token, outer, true);
+            if (!outer->has_structure(name) && is_redefinition(ast, "Struct", name, outer))
+            {
+                return;
+            }
             StructType result(name);
             outer->structure(std::move(result));
         }
@@ -1851,6 +1888,10 @@ private:
                 case "IDENTIFIER"_:
                 {
                     name = resolve_identifier(ast, node->token, outer, true);
+                    if (!outer->has_union(name) && is_redefinition(ast, "Union", name, outer))
+                    {
+                        return;
+                    }
                     break;
                 }
                 case "SWITCH_TYPE_SPEC"_:
-- 
2.43.0


From 64a7c39d8e9c1bfbcf3351894bc2ab1b0ddd4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 104/108] fix: reserved words were accepted as names of IDL
 enums, enumerators and constants

---
 include/xtypes/idl/parser.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 25484d8..61e571f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -881,17 +881,7 @@ private:
             return std::string(identifier.substr(1).data(), identifier.substr(1).size()); // If the identifier starts with "_", remove the underscode and return.
         }
 
-        if (is_token(identifier))
-        {
-            std::stringstream message;
-            message << "The identifier \"" << identifier << "\" is a reserved word.";
-            if (!context_->allow_keyword_identifiers)
-            {
-                context_->log(log::LogLevel::xERROR, "EXCEPTION", message.str(), ast);
-                throw exception(message.str(), ast);
-            }
-            context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
-        }
+        check_reserved_word(ast, identifier);
 
         if (scope->has_symbol(std::string(identifier.data(), identifier.size()), outer_scopes))
         {
@@ -910,6 +900,23 @@ private:
         return std::string(identifier.data(), identifier.size());
     }
 
+    void check_reserved_word(
+            const std::shared_ptr<peg::Ast>& ast,
+            const std::string_view& identifier)
+    {
+        if (is_token(identifier))
+        {
+            std::stringstream message;
+            message << "The identifier \"" << identifier << "\" is a reserved word.";
+            if (!context_->allow_keyword_identifiers)
+            {
+                context_->log(log::LogLevel::xERROR, "EXCEPTION", message.str(), ast);
+                throw exception(message.str(), ast);
+            }
+            context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
+        }
+    }
+
     // Whether the scope already has a symbol with this name: it isn't allowed unless the context ignores the redefinitions.
     bool is_redefinition(
             const std::shared_ptr<peg::Ast>& ast,
@@ -1077,6 +1084,7 @@ private:
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
         const std::string identifier = referred_name(ast->nodes[1]->token);
+        check_reserved_word(ast, ast->nodes[1]->token);
         if (is_redefinition(ast, "Constant", identifier, outer))
         {
             return;
@@ -1711,6 +1719,7 @@ private:
         using namespace peg::udl;
 
         const std::string name = referred_name(ast->nodes[0]->token);
+        check_reserved_word(ast, ast->nodes[0]->token);
         EnumerationType<uint32_t> result(name); // TODO: Support other Enum types?, the grammar should be upgraded.
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
@@ -1723,7 +1732,9 @@ private:
         {
             // The identifier comes after the annotations, if any
             const auto& node = ast->nodes[idx];
-            const std::string token = referred_name(node->nodes.empty() ? node->token : node->nodes.back()->token);
+            const std::string_view& identifier = node->nodes.empty() ? node->token : node->nodes.back()->token;
+            const std::string token = referred_name(identifier);
+            check_reserved_word(node, identifier);
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
                     ast);
-- 
2.43.0


From 2cc5ad1f01f34f5b0595d32fba28e543edaffd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 105/108] fix: the log entry of an IDL identifier had the whole
 text that follows it

---
 include/xtypes/idl/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 61e571f..3016827 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -896,7 +896,7 @@ private:
         }
 
         context_->log(log::LogLevel::xDEBUG, "RESOLVE_IDENTIFIER",
-                identifier.data(), ast);
+                std::string(identifier), ast);
         return std::string(identifier.data(), identifier.size());
     }
 
-- 
2.43.0


From 192315bf7c3fd9aa29a0657bee47f1f647783eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:39 +0000
Subject: [PATCH 106/108] fix: union labels given as a text that isn't a value
 of the discriminator were taken as another label

---
 include/xtypes/UnionType.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 70bb171..7544248 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -1109,6 +1109,34 @@ protected:
                     base = 8;
                 }
 
+                // The values that aren't literals of the discriminator cannot be taken as another label
+                [[maybe_unused]] bool valid = true;
+                switch (kind)
+                {
+                    case TypeKind::INT_8_TYPE:
+                    case TypeKind::UINT_8_TYPE:
+                    case TypeKind::INT_16_TYPE:
+                    case TypeKind::UINT_16_TYPE:
+                    case TypeKind::INT_32_TYPE:
+                    case TypeKind::UINT_32_TYPE:
+                    case TypeKind::INT_64_TYPE:
+                    case TypeKind::UINT_64_TYPE:
+                    {
+                        char* end = nullptr;
+                        std::strtoull(label.c_str(), &end, base);
+                        valid = !label.empty() && end == label.c_str() + label.size();
+                    }
+                    break;
+                    case TypeKind::CHAR_8_TYPE:
+                        valid = label.size() == 1 || label.find("'") < label.size() - 1;
+                        break;
+                    default:
+                        valid = !label.empty();
+                }
+                xtypes_assert(valid,
+                        "Label '" << label << "' isn't a value of the discriminator type '" << disc_->type().name()
+                                  << "'.");
+
                 switch (kind)
                 {
                     case TypeKind::BOOLEAN_TYPE:
-- 
2.43.0


From 94fffa994dd526d8791669bb7de9277ebd136146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 107/108] fix: IDL integer literals that don't fit their type
 became another value silently

---
 include/xtypes/idl/parser.hpp | 57 ++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 3016827..3f115c0 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -41,6 +41,7 @@
 #endif //_MSC_VER
 
 #include <array>
+#include <cerrno>
 #include <cmath>
 #include <cstring>
 #include <exception>
@@ -1458,6 +1459,7 @@ private:
             case "WIDE_STRING_LITERAL"_:
             case "WIDE_SUBSTRING_LITERAL"_:
             {
+                check_literal_range(type, ast, false);
                 get_literal_value(result, ast);
                 break;
             }
@@ -1479,7 +1481,15 @@ private:
             }
             case "UNARY_EXPR"_:
             {
-                result = solve_expr(type, ast->nodes[1], outer);
+                if (ast->nodes[0]->tag == "SUB_OP"_ && ast->nodes[1]->tag == "INTEGER_LITERAL"_)
+                {
+                    check_literal_range(type, ast->nodes[1], true);
+                    get_literal_value(result, ast->nodes[1]);
+                }
+                else
+                {
+                    result = solve_expr(type, ast->nodes[1], outer);
+                }
                 if (ast->nodes[0]->tag == "SUB_OP"_)
                 {
                     // The absolute value of a minimum is read as the minimum itself
@@ -1517,6 +1527,51 @@ private:
         return result;
     }
 
+    // The integer literals cannot lose bits. The decimal ones must keep their sign too.
+    void check_literal_range(
+            const DynamicType& type,
+            const std::shared_ptr<peg::Ast>& ast,
+            bool negative) const
+    {
+        using namespace peg::udl;
+        bool is_signed = false;
+        switch (type.kind())
+        {
+            case TypeKind::INT_8_TYPE:
+            case TypeKind::INT_16_TYPE:
+            case TypeKind::INT_32_TYPE:
+            case TypeKind::INT_64_TYPE:
+                is_signed = true;
+                break;
+            case TypeKind::UINT_8_TYPE:
+            case TypeKind::UINT_16_TYPE:
+            case TypeKind::UINT_32_TYPE:
+            case TypeKind::UINT_64_TYPE:
+                break;
+            default:
+                return;
+        }
+        if (ast->tag != "INTEGER_LITERAL"_)
+        {
+            return;
+        }
+
+        const std::string literal(ast->token);
+        uint64_t limit = std::numeric_limits<uint64_t>::max() >> ((sizeof(uint64_t) - type.memory_size()) * 8);
+        if (is_signed && literal[0] != '0')
+        {
+            limit = limit / 2 + (negative ? 1 : 0);
+        }
+        errno = 0;
+        const uint64_t value = std::strtoull(literal.c_str(), nullptr, 0); // Decimal, octal or hexadecimal
+        if (errno == ERANGE || value > limit)
+        {
+            const std::string message = "The literal " + literal + " is out of the range of '" + type.name() + "'";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, ast);
+            throw exception(message, ast);
+        }
+    }
+
     // The floating point values that an integer cannot have cannot be converted
     void check_conversion(
             const DynamicData& data,
-- 
2.43.0


From 9d2b7a681576602aed4105978b8529dfb35e0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:29 +0000
Subject: [PATCH 108/108] fix: IDL union labels that are unknown or out of
 range were taken as another label

---
 include/xtypes/UnionType.hpp  |  4 ++++
 include/xtypes/idl/parser.hpp | 40 +++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 7544248..a62363e 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -1231,6 +1231,8 @@ protected:
                         }
                         else
                         {
+                            xtypes_assert(wstr.size() == 1 || wstr.find(u"'") < wstr.size() - 1,
+                                    "Label '" << label << "' isn't a character.");
                             value = wstr[wstr.find(u"'") + 1];
                         }
                         result.emplace_back(static_cast<int64_t>(value));
@@ -1249,6 +1251,8 @@ protected:
                         }
                         else
                         {
+                            xtypes_assert(temp.size() == 1 || temp.find(L"'") < temp.size() - 1,
+                                    "Label '" << label << "' isn't a character.");
                             value = temp[temp.find(L"'") + 1];
                         }
                         result.emplace_back(static_cast<int64_t>(value));
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 3f115c0..835c056 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -2079,17 +2079,18 @@ private:
             return "default";
         }
 
+        const DynamicType& type = discriminator.kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(discriminator).rget()
+                : discriminator;
         const std::string token = referred_name(node->token);
-        if (node->tag == "SCOPED_NAME"_ && !outer->has_constant(token))
+        if (type.kind() == TypeKind::ENUMERATION_TYPE && node->tag == "SCOPED_NAME"_ && !outer->has_constant(token))
         {
             return token; // It must be an enumerator of the discriminator
         }
 
-        const DynamicType& type = discriminator.kind() == TypeKind::ALIAS_TYPE
-                ? static_cast<const AliasType&>(discriminator).rget()
-                : discriminator;
         DynamicData value = solve_expr(
             type.kind() == TypeKind::ENUMERATION_TYPE ? primitive_type<uint32_t>() : type, node, outer);
+        check_label_range(value.type(), node, outer);
         switch (value.type().kind())
         {
             case TypeKind::BOOLEAN_TYPE:
@@ -2105,6 +2106,37 @@ private:
         }
     }
 
+    // The values of the labels cannot lose bits, otherwise they would be another label
+    void check_label_range(
+            const DynamicType& type,
+            const std::shared_ptr<peg::Ast>& node,
+            std::shared_ptr<Module>& outer)
+    {
+        const int bits = static_cast<int>(type.memory_size() * 8);
+        switch (type.kind())
+        {
+            case TypeKind::INT_8_TYPE:
+            case TypeKind::UINT_8_TYPE:
+            case TypeKind::INT_16_TYPE:
+            case TypeKind::UINT_16_TYPE:
+            case TypeKind::INT_32_TYPE:
+            case TypeKind::UINT_32_TYPE:
+            {
+                const DynamicData value = solve_expr(primitive_type<int64_t>(), node, outer);
+                const int64_t limit = int64_t(1) << bits;
+                if (value.value<int64_t>() < -limit / 2 || value.value<int64_t>() >= limit)
+                {
+                    const std::string message = "The label is out of the range of '" + type.name() + "'";
+                    context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+                    throw exception(message, node);
+                }
+                break;
+            }
+            default:
+                break;
+        }
+    }
+
     void case_member_def(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
-- 
2.43.0

