From 017072d63a488cf1cb8ecd8941c4ab67660c4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:33 +0000
Subject: [PATCH 01/25] fix: accept an array push that exactly fills
 WriteBufferFixedSize and do not wrap its size check

---
 src/WriteBufferFixedSize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..ff92c33 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -85,7 +85,8 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        // Compare with the space left, adding the length to the index could overflow.
+        bool return_value = get_available_size() >= length;
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From f15159ffa8b50cbdbcfb54e5ed858fbf07e74adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 02/25] fix: limit ReadBufferFixedSize::advance(N) to the bytes
 left, a wrapping N moved the read index backwards

---
 src/ReadBufferFixedSize.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..4647882 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -88,12 +88,11 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
-        if(return_value)
-        {
-          read_index_ = new_read_index;
-        }
+        // Compare against the number of bytes left, the sum of the read index and N could overflow.
+        const uint32_t bytes_left = (write_index_ > read_index_) ? (write_index_ - read_index_) : 0;
+        const bool return_value = bytes_left >= N;
+        // The movement is limited to the number of bytes in the buffer.
+        read_index_ += return_value ? N : bytes_left;
         return return_value;
       }
 
-- 
2.43.0


From 1221da718fe5c0a846d389c5f14f9be71cc542eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 03/25] fix: decode a bool as a complete varint instead of a
 single byte

---
 src/WireFormatter.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..cc95d15 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -483,15 +483,12 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // A boolean is a varint like any other, all its bytes have to be consumed.
+        uint64_t temp_value;
+        Error result = DeserializeVarint(buffer, temp_value);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != temp_value);
         }
         return result;
       }
-- 
2.43.0


From 48d1fbf32f4ed37837676f8dea45b5813654d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:13 +0000
Subject: [PATCH 04/25] fix: SerializeVarint reports BUFFER_FULL when any of
 its bytes was refused

---
 src/WireFormatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index cc95d15..276d640 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -529,7 +529,7 @@ namespace EmbeddedProto
           memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
           value >>= VARINT_SHIFT_N_BITS;
         }
-        memory_free = buffer.push(static_cast<uint8_t>(value));
+        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
 
         const Error return_value = memory_free ? Error::NO_ERRORS : Error::BUFFER_FULL;
         return return_value;
-- 
2.43.0


From b6e819407652781244d8fc71bf22d782d353d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 05/25] fix: report INVALID_WIRETYPE on group tags instead of
 decoding their content as fields

---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..0a1220d 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -114,7 +114,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // Groups are deprecated and not supported, their content can not be skipped.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From c645f4de341a0a324e9661f78ab04a52d795e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 06/25] fix: report truncated packed repeated fields instead of
 silently accepting them

---
 src/RepeatedField.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..7281b58 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -342,20 +342,20 @@ namespace EmbeddedProto
         ReadBufferSection bufferSection(buffer, size);
         DATA_TYPE x;
         
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        // Every element has to be complete, the data is only fine when the whole section is used.
+        while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
         {
-          return_value = this->add(x);
+          return_value = x.deserialize(bufferSection);
           if(Error::NO_ERRORS == return_value)
           {
-            return_value = x.deserialize(bufferSection);
+            return_value = this->add(x);
           }
         }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
+        // Less data was available than the size indicated.
+        if((Error::NO_ERRORS == return_value) && (bufferSection.get_max_size() < size))
         {
-          return_value = Error::NO_ERRORS;
+          return_value = Error::END_OF_BUFFER;
         }
 
         return return_value;
-- 
2.43.0


From cea644a910f748943a15df88dbf36292ba36aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:17 +0000
Subject: [PATCH 07/25] fix: report truncated nested messages instead of
 silently accepting them

---
 src/MessageInterface.cpp  | 7 +++++++
 src/ReadBufferSection.cpp | 5 ++++-
 src/RepeatedField.h       | 7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 0a1220d..5416337 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -84,6 +84,13 @@ namespace EmbeddedProto
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
         return_value = deserialize(bufferSection);
+
+        // The message is truncated when less data was available than its size indicated.
+        if((Error::NO_ERRORS == return_value) 
+           && ((bufferSection.get_max_size() < size) || (0 < bufferSection.get_size())))
+        {
+          return_value = Error::END_OF_BUFFER;
+        }
       }
     }
     return return_value;
diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..d10af3c 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -93,7 +93,10 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
     }
     return result;
   }
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 7281b58..60da052 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -380,6 +380,13 @@ namespace EmbeddedProto
             {
               ReadBufferSection bufferSection(buffer, size);
               return_value = this->get(index).deserialize(bufferSection);
+
+              // The message is truncated when less data was available than its size indicated.
+              if((Error::NO_ERRORS == return_value) 
+                 && ((bufferSection.get_max_size() < size) || (0 < bufferSection.get_size())))
+              {
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From f1c6e1eefa1f4300d9e8619eac377d46b17ec6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 08/25] fix: ReadBufferSection::advance(N) returns false when
 the section holds less than N bytes

---
 src/ReadBufferSection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index d10af3c..ab7c79e 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -80,8 +80,9 @@ namespace EmbeddedProto
     bool result = 0 < size_;
     if(result) 
     {
-      uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      const bool holds_n_bytes = n_bytes <= size_;
+      const uint32_t n = holds_n_bytes ? n_bytes : size_;
+      result = buffer_.advance(n) && holds_n_bytes;
       size_ -= n;
     }
     return result;
-- 
2.43.0


From 4e9f7cde80b78ce4334c87e3efc97c155b69aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 09/25] fix: clear the elements dropped by assigning a shorter
 repeated field, they resurfaced in later decodes

---
 src/RepeatedFieldFixedSize.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/RepeatedFieldFixedSize.h b/src/RepeatedFieldFixedSize.h
index 5a00e1c..24f3988 100644
--- a/src/RepeatedFieldFixedSize.h
+++ b/src/RepeatedFieldFixedSize.h
@@ -89,6 +89,7 @@ namespace EmbeddedProto
         {
           data_[i] = rhs.get_const(i);
         }
+        clear_from(rhs.get_length());
         current_length_ = rhs.get_length();
         
         return *this;
@@ -157,6 +158,7 @@ namespace EmbeddedProto
             (data_[i]) = (*d);
             ++d;
           }
+          clear_from(length);
           current_length_ = length;        
         }
         else 
@@ -195,6 +197,15 @@ namespace EmbeddedProto
 
     private:
 
+      //! Clear the elements in use from the given index on, so they do not resurface later.
+      void clear_from(const uint32_t index)
+      {
+        for(uint32_t i = index; i < current_length_; ++i)
+        {
+          data_[i].clear();
+        }
+      }
+
       //! Number of item in the data array.
       uint32_t current_length_ = 0;
 
-- 
2.43.0


From 2c3462475402d788fb060d99338173323e1a6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:42 +0000
Subject: [PATCH 10/25] fix: do not leave remains of a longer string or bytes
 value behind a shorter one

---
 src/FieldStringBytes.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..91b321b 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -35,6 +35,7 @@
 #include "Fields.h"
 #include "Errors.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
@@ -163,6 +164,8 @@ namespace EmbeddedProto
           {
             current_length_ = length;
             memcpy(data_.data(), data, length);
+            // Do not leave remains of the previous data behind the new end.
+            std::fill(data_.begin() + length, data_.end(), 0);
           }
           else
           {
@@ -337,12 +340,8 @@ namespace EmbeddedProto
         if(nullptr != str) {
           const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
           this->set_length(str_MAX_LENGTH);
-          uint32_t this_length = this->get_length();
-          // If it fits in this object copy the null terminator.
-          if(MAX_LENGTH > this_length) {
-            ++this_length;
-          }
-          strncpy(this->get(), str, this_length);
+          // This also fills the remainder of the array, if any, with null terminators.
+          strncpy(this->get(), str, MAX_LENGTH);
         }
         else {
           this->clear();
-- 
2.43.0


From b0297b40613b59fde6de4042d0c2e6de624db009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 11/25] fix: decode enum values serialized with up to 10 bytes

---
 src/Fields.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..d00663f 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -408,11 +408,12 @@ namespace EmbeddedProto
       template<Field::FieldTypes DES_FIELDTYPE, typename std::enable_if<Field::FieldTypes::enumeration == DES_FIELDTYPE, bool>::type = true>
       Error deserialize_(ReadBufferInterface& buffer)
       { 
-        uint32_t value = 0;
+        // Use a 64 bit value as negative enum values are serialized with 10 bytes.
+        uint64_t value = 0;
         const Error return_value = WireFormatter::DeserializeVarint(buffer, value);
         if(::EmbeddedProto::Error::NO_ERRORS == return_value)
         {
-          value_ = static_cast<VARIABLE_TYPE>(value);
+          value_ = static_cast<VARIABLE_TYPE>(static_cast<uint32_t>(value));
         }
         return return_value;
       }
-- 
2.43.0


From 00c7f596f8c2e039c49e0b57f971243d0d3f8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:31 +0000
Subject: [PATCH 12/25] fix: serialize negative zero, it is not the default
 value of a float or double

---
 generator/EmbeddedProto/templates/FieldBasic_Serialize.h | 2 ++
 generator/EmbeddedProto/templates/Header.h               | 1 +
 2 files changed, 3 insertions(+)

diff --git a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
index 3ff4e42..1cec57c 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
@@ -29,6 +29,8 @@ Postal address:
 #}
 {% if (field.optional or (field.oneof is not none)) %}
 if(has_{{field.get_name()}}() && (::EmbeddedProto::Error::NO_ERRORS == return_value))
+{% elif field.descriptor.type in (field.descriptor.TYPE_FLOAT, field.descriptor.TYPE_DOUBLE) %}
+if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% else %}
 if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% endif %}
diff --git a/generator/EmbeddedProto/templates/Header.h b/generator/EmbeddedProto/templates/Header.h
index c61b30d..39c15f4 100644
--- a/generator/EmbeddedProto/templates/Header.h
+++ b/generator/EmbeddedProto/templates/Header.h
@@ -47,6 +47,7 @@
 #include <FieldStringBytes.h>
 #include <Errors.h>
 #include <Defines.h>
+#include <cmath>
 #include <limits>
 
 {% endif %}
-- 
2.43.0


From 3b0bdcf2b9dc9a0c7a645671c1cd7e8a01e05054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:30 +0000
Subject: [PATCH 13/25] fix: generator dropped dependencies on messages of
 which the name starts with that of the parent message

---
 generator/EmbeddedProto/ProtoFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index ad61918..d1bd83c 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -49,7 +49,7 @@ def toposort_add_msg(msg, namespace, dependency_data):
         local_definitions.append(full_msg_type)
         for dep in dependency_data[full_msg_type]:
             # Add requirements on other namespaces.
-            if not dep.startswith(local_namespace):
+            if (dep != local_namespace) and not dep.startswith(local_namespace + "."):
                 dependencies.add(dep)
 
     for nested_enum in msg.enum_type:
-- 
2.43.0


From 3c893015384302803dcce5c7f294057bafbbd5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 14/25] fix: generator reported a circular dependency on fields
 using a type nested more than one level deep

---
 generator/EmbeddedProto/ProtoFile.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index d1bd83c..700e489 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -38,7 +38,6 @@ from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
 def toposort_add_msg(msg, namespace, dependency_data):
 
-    local_definitions = []
     local_namespace = namespace + "." + msg.name
 
     dependencies = {namespace}
@@ -46,7 +45,6 @@ def toposort_add_msg(msg, namespace, dependency_data):
     for nested_msg in msg.nested_type:
         dependency_data = toposort_add_msg(nested_msg, local_namespace, dependency_data)
         full_msg_type = local_namespace + "." + nested_msg.name
-        local_definitions.append(full_msg_type)
         for dep in dependency_data[full_msg_type]:
             # Add requirements on other namespaces.
             if (dep != local_namespace) and not dep.startswith(local_namespace + "."):
@@ -55,11 +53,10 @@ def toposort_add_msg(msg, namespace, dependency_data):
     for nested_enum in msg.enum_type:
         full_enum_type = local_namespace + "." + nested_enum.name
         dependency_data[full_enum_type] = {local_namespace}
-        local_definitions.append(full_enum_type)
 
     for f in msg.field:
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
-                and (f.type_name not in local_definitions):
+                and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
 
     # If we have any dependencies add them
-- 
2.43.0


From c4ffdb8eaf4053f7d3b65551e5ec4841583af697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 15/25] fix: generator mixed up the order of messages of which
 the joined scope and name are equal

---
 generator/EmbeddedProto/ProtoFile.py       | 2 +-
 generator/EmbeddedProto/TypeDefinitions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 700e489..eb49045 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -116,7 +116,7 @@ class ProtoFile:
             # Based on the desired order assign each message definition an index.
             for index, msg_name in enumerate(message_order):
                 for msg_def in self.msg_definitions:
-                    if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                    if msg_name == my_scope + "." + msg_def.name:
                         msg_def.sorted_index = index
                         break
 
diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index 8a61af4..2c216d1 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -181,7 +181,7 @@ class MessageDefinition(TypeDefinition):
 
         for index, msg_name in enumerate(message_order):
             for msg_def in self.nested_msg_definitions:
-                if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                if msg_name == my_scope + "." + msg_def.name:
                     msg_def.sorted_index = index
                     break
 
-- 
2.43.0


From ebb592785a954244008da3513eb6cf923d6b3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 16/25] fix: generator forgot template parameters of messages
 repeated with a maxLength option

---
 generator/EmbeddedProto/Field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 0c48167..3766439 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -533,8 +533,9 @@ class FieldRepeated(Field):
         self.actual_type.match_field_with_definitions(all_types_definitions)
 
     def register_template_parameters(self):
-        # If we do not have a max length defined register the template parameter.
-        if not self.MaxLength:
+        # If we do not have a max length defined, or when the repeated type has template parameters of its own, register
+        # the template parameters.
+        if self.get_template_parameters():
             self.parent.register_child_with_template(self)
         return True
 
-- 
2.43.0


From 19addcf842922faab95b8e696faea81eb9ed4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 17/25] fix: reject proto2 files, protoc does not set their
 syntax

---
 generator/EmbeddedProto/ProtoFile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index eb49045..546f2a1 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -72,7 +72,9 @@ class ProtoFile:
     def __init__(self, proto_descriptor):
         self.descriptor = proto_descriptor
 
-        if "proto2" == proto_descriptor.syntax:
+        # Protoc leaves the syntax empty for proto2 files. The descriptor of google itself is allowed to be included.
+        if (proto_descriptor.syntax in ("", "proto2")) and \
+           ("google/protobuf/descriptor.proto" != proto_descriptor.name):
             raise Exception(proto_descriptor.name + ": Sorry, proto2 is not supported, please use proto3.")
 
         # These file names are the ones used for creating the C++ files.
-- 
2.43.0


From b8ebe46b1907163265013486ddb03dc9f7d0d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 18/25] fix: to_string() never writes outside of the given
 string view, nor reads past the end of a full string

---
 .../EmbeddedProto/templates/TypeDefMsg.h      |  9 +++------
 src/Defines.h                                 | 12 ++++++++++++
 src/FieldStringBytes.h                        | 19 +++++++------------
 src/Fields.h                                  |  9 +++------
 src/RepeatedField.h                           |  9 +++------
 5 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..3d17184 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -289,8 +289,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
       }
 
@@ -319,8 +318,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        left_chars.advance(n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -342,8 +340,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        left_chars.advance(n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..e5ad6cf 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -78,6 +78,18 @@ namespace EmbeddedProto
   struct array_view {
     T* data; //!< A pointer to the start of an array.
     uint32_t size; //!< The number of elements in the array.
+
+    //! Move the start of the view forward over the given number of elements.
+    /*!
+        The movement is limited to the size of the view. snprintf() for example returns the number 
+        of characters it wanted to write, not the number of characters which did fit.
+    */
+    void advance(const uint32_t n)
+    {
+      const uint32_t n_limited = (n < size) ? n : size;
+      data += n_limited;
+      size -= n_limited;
+    }
   };
 
   using string_view = array_view<char>;
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 91b321b..1424c58 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -362,24 +362,22 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", static_cast<int>(this->get_length()), this->get_const());
         }
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
@@ -442,8 +440,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -458,8 +455,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         uint32 field;
@@ -473,8 +469,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index d00663f..db8144c 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 60da052..1a53691 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -271,8 +271,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -280,8 +279,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -293,8 +291,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0


From 10a795f115a5ed76de4bd6ad2473467aa8470d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:26 +0000
Subject: [PATCH 19/25] fix: to_string() started the text of a message having
 only oneofs with a comma when the first oneof is not set

---
 generator/EmbeddedProto/templates/TypeDefMsg.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 3d17184..932b1c9 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -327,7 +327,11 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       {% endif %}
       {% endfor %}
       {% for oneof in typedef.oneofs %}
-      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{((typedef.fields|length == 0) and loop.first)|lower }});
+      {% if typedef.fields|length == 0 %}
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, true{% for previous in typedef.oneofs[:loop.index0] %} && (FieldNumber::NOT_SET == {{previous.get_which_oneof()}}){% endfor %});
+      {% else %}
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, false);
+      {% endif %}
       {% endfor %}  
       if( 0 == indent_level) 
       {
-- 
2.43.0


From cb518b51c23fa7776ff3894a66bcd638f8290156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:15 +0000
Subject: [PATCH 20/25] fix: header guards are valid identifiers and differ for
 every file

---
 generator/EmbeddedProto/ProtoFile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 546f2a1..f609d7f 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -30,6 +30,8 @@
 
 from .TypeDefinitions import *
 import os
+import re
+import zlib
 from toposort import CircularDependencyError, toposort_flatten
 from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
@@ -149,7 +151,10 @@ class ProtoFile:
         return result
 
     def get_header_guard(self):
-        return self.filename_with_folder.replace("/", "_").upper()
+        # The guard has to be a valid identifier and different for every file. Two file names can be the same after
+        # replacing characters and changing the case. The checksum of the actual name makes the difference.
+        readable_name = re.sub("[^0-9a-zA-Z]", "_", self.filename_with_folder).upper()
+        return "EAMS_{}_{:08X}".format(readable_name, zlib.crc32(self.filename_with_folder.encode("utf-8")))
 
     # Obtain a dictionary with references to all nested enums and messages
     def get_all_nested_types(self):
-- 
2.43.0


From 8adb76ac2b91804d9b9183f5ed1424f4fa031b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:49 +0000
Subject: [PATCH 21/25] fix: types having the same name in different scopes
 were mixed up, types inside a message template used outside of it gave code
 that does not compile

---
 generator/EmbeddedProto/Field.py           | 50 +++++++++++-----------
 generator/EmbeddedProto/TypeDefinitions.py |  9 ++--
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 3766439..dfa1b25 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -132,18 +132,34 @@ class Field:
     def get_which_oneof(self):
         return self.oneof.get_which_oneof()
 
-    # Get the scope relevant compared to the scope this field is used in.
-    def get_reduced_scope(self):
+    # Get the name of the type definition of this field as it should be used in the scope of the field.
+    def get_scoped_type_name(self):
         parent_scope = self.parent.scope.get()
         def_scope = self.definition.scope.get()
-        start_index = 0
+        n_common_scopes = 0
         for ds, ps in zip(def_scope[:-1], parent_scope):
             if ds == ps:
-                start_index += 1
+                n_common_scopes += 1
             else:
                 break
-        reduced_scope = def_scope[start_index:]
-        return reduced_scope
+
+        for scope in def_scope[n_common_scopes:-1]:
+            if scope["templates"]:
+                raise Exception("You are trying to use a field with the type: \"" + self.descriptor.type_name +
+                                "\". It is defined in different scope as where you are using it. But the scope of "
+                                "definition includes template parameters for repeated, string or byte fields. It "
+                                "is there for not possible to define the field where you are using it as we do not "
+                                "know the template value. Try defining the field in the main scope or the one you "
+                                "are using it in.")
+
+        names = [scope["name"] for scope in def_scope]
+        if (0 < n_common_scopes) and def_scope[n_common_scopes - 1]["is_type"]:
+            # The definition is nested in a message we are in our self. Start with the name of that class, this way
+            # template parameters are not required and types with the same name in between are not an issue.
+            return "::".join(names[n_common_scopes - 1:])
+        else:
+            # Use the whole scope to not mix up types having the same name in different scopes.
+            return "::" + "::".join(names)
 
     def render(self, filename, jinja_environment):
         template = jinja_environment.get_template(filename)
@@ -346,20 +362,7 @@ class FieldEnum(Field):
             type_name = self.descriptor.type_name if "." != self.descriptor.type_name[0] else self.descriptor.type_name[1:]
             type_name = type_name.replace(".", "::")
         else:
-            scopes = self.get_reduced_scope()
-            type_name = ""
-            for scope in scopes:
-                if scope["templates"]:
-                    raise Exception("You are trying to use a field with the type: \"" + self.descriptor.type_name +
-                                    "\". It is defined in different scope as where you are using it. But the scope of "
-                                    "definition includes template parameters for repeated, string or byte fields. It "
-                                    "is there for not possible to define the field where you are using it as we do not "
-                                    "know the template value. Try defining the field in the main scope or the one you "
-                                    "are using it in.")
-
-                type_name += scope["name"] + "::"
-            # Remove the last ::
-            type_name = type_name[:-2]
+            type_name = self.get_scoped_type_name()
 
         return type_name
 
@@ -414,12 +417,7 @@ class FieldMessage(Field):
             type_name = self.descriptor.type_name if "." != self.descriptor.type_name[0] else self.descriptor.type_name[1:]
             type_name = type_name.replace(".", "::")
         else:
-            scopes = self.get_reduced_scope()
-            type_name = ""
-            for scope in scopes:
-                type_name += scope["name"] + "::"
-            # Remove the last ::
-            type_name = type_name[:-2]
+            type_name = self.get_scoped_type_name()
 
             tmpl_param = self.get_template_parameters()
             if tmpl_param:
diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index 2c216d1..99a83eb 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -36,10 +36,13 @@ import jinja2
 # This class deal with the scope in which definitions and field are located. It is used to keep track of template
 # parameters required for a given scope.
 class Scope:
-    def __init__(self, scope_name, parent):
+    def __init__(self, scope_name, parent, is_type=False):
         # The name of this scope/namespace
         self.name = scope_name
 
+        # Is this the scope of a message or enum, or of a package.
+        self.is_type = is_type
+
         # A reference to the scope above this scope. If we are at the top level this will be None.
         self.parent = parent
 
@@ -86,7 +89,7 @@ class Scope:
         result = []
         if self.parent:
             result.extend(self.parent.get())
-        result.extend([{"name": self.name, "templates": self.get_template_parameters()}])
+        result.extend([{"name": self.name, "is_type": self.is_type, "templates": self.get_template_parameters()}])
         return result
 
 # -----------------------------------------------------------------------------
@@ -96,7 +99,7 @@ class TypeDefinition:
     def __init__(self, proto_descriptor, parent_scope, template_filename):
         self.descriptor = proto_descriptor
         self.name = proto_descriptor.name
-        self.scope = Scope(self.name, parent_scope)
+        self.scope = Scope(self.name, parent_scope, is_type=True)
         self.template_file = template_filename
 
     def get_name(self):
-- 
2.43.0


From 367e427b5bec52997d9de7ba12d439239a244638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:49 +0000
Subject: [PATCH 22/25] fix: the destructor of a message in a oneof could not
 be found when defined in another scope

---
 generator/EmbeddedProto/templates/FieldMsg_GetSet.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
index 3ae06fa..7875ae0 100644
--- a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
@@ -38,7 +38,9 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    // The type can be defined in a scope different from this one, the alias allows for naming the destructor.
+    using field_type = {{field.get_type()}};
+    {{field.get_variable_name()}}.~field_type();
   }
 }
 inline void set_{{field.get_name()}}(const {{field.get_type()}}& value)
-- 
2.43.0


From 832a13a531c0fbf99aefd7343cc7eacfd9c37c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 23/25] fix: a message nested in a message it holds itself is
 refused, the code did not compile

---
 generator/EmbeddedProto/ProtoFile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index f609d7f..3b7c513 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -57,6 +57,10 @@ def toposort_add_msg(msg, namespace, dependency_data):
         dependency_data[full_enum_type] = {local_namespace}
 
     for f in msg.field:
+        # A message can not hold one of the messages it is nested in, those are not complete at that point.
+        if (FieldDescriptorProto.TYPE_MESSAGE == f.type) and local_namespace.startswith(f.type_name + "."):
+            raise CircularDependencyError({local_namespace: {f.type_name}})
+
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
                 and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
@@ -104,10 +108,10 @@ class ProtoFile:
         if self.descriptor.package:
             toposort_namespace = "." + self.descriptor.package
 
-        for msg in self.descriptor.message_type:
-            dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
-
         try:
+            for msg in self.descriptor.message_type:
+                dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
+
             # Sort the message in the order they should appear in the code.
             message_order = toposort_flatten(dependency_data)
 
-- 
2.43.0


From b6bfe023bb4f093745acfeb2ed03fff058e8e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 24/25] fix: types nested two levels deep in a message template
 need typename

---
 generator/EmbeddedProto/Field.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index dfa1b25..aa41243 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -156,7 +156,14 @@ class Field:
         if (0 < n_common_scopes) and def_scope[n_common_scopes - 1]["is_type"]:
             # The definition is nested in a message we are in our self. Start with the name of that class, this way
             # template parameters are not required and types with the same name in between are not an issue.
-            return "::".join(names[n_common_scopes - 1:])
+            type_name = "::".join(names[n_common_scopes - 1:-1])
+            # Types nested deeper in a class template are not known to be a type without saying so.
+            in_template = any(scope["templates"] for scope in def_scope[:n_common_scopes])
+            if in_template and (n_common_scopes + 1) < len(def_scope):
+                is_template = "template " if def_scope[-1]["templates"] else ""
+                return "typename " + type_name + "::" + is_template + names[-1]
+            else:
+                return type_name + "::" + names[-1]
         else:
             # Use the whole scope to not mix up types having the same name in different scopes.
             return "::" + "::".join(names)
-- 
2.43.0


From 3e806f2d45cf73787c6d380ba54b5bf63e237c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:47 +0000
Subject: [PATCH 25/25] fix: a constexpr function returning void is not C++11

---
 src/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defines.h b/src/Defines.h
index e5ad6cf..2229084 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -61,7 +61,7 @@ namespace EmbeddedProto
 #elif __cplusplus >= 201103L // C++11
 
   template<class T>
-  constexpr void destroy_at(T* p) 
+  void destroy_at(T* p) 
   {
     p->~T(); 
   }
-- 
2.43.0

