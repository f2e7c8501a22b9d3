From 51cf31a7eebd428ee40b3e2aef7796c3bdb59b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 01/49] fix: keep byte-to-character conversion inside the
 buffer

A source ending in a truncated multi-byte character made BuildCharacterIndex
write past the end of the index, and byte ranges reaching past the end of the
buffer were computed but not applied as clipped.
---
 .../src/markdown-parser/ByteBuffer.cc         | 47 +++++++++++--------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..a238ec2 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -11,7 +11,18 @@
 using namespace mdp;
 
 /* Byte lenght of an UTF8 character (based on first byte) */
-#define UTF8_CHAR_LEN(byte) ((0xE5000000 >> ((byte >> 3) & 0x1e)) & 3) + 1
+#define UTF8_CHAR_LEN(byte) (((0xE5000000 >> (((byte) >> 3) & 0x1e)) & 3) + 1)
+
+/* Clip a range of bytes to the bounds of a sequence of given size */
+static BytesRange ClipBytesRange(const BytesRange& range, size_t size)
+{
+    BytesRange clipped = range;
+    if (clipped.location > size)
+        clipped.location = size;
+    if (clipped.length > size - clipped.location)
+        clipped.length = size - clipped.location;
+    return clipped;
+}
 
 /* Number of UTF8 characters in byte buffer */
 static size_t strnlen_utf8(const char* s, size_t len)
@@ -20,7 +31,7 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len && s[i]) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
@@ -34,19 +45,16 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
-    }
+    // Accomodate maximum possible length
+    const BytesRange workRange = ClipBytesRange(bytesRange, byteBuffer.length());
 
     size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    if (workRange.location > 0)
+        charLocation = strnlen_utf8(byteBuffer.c_str(), workRange.location);
 
     size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+    if (workRange.length > 0)
+        charLength = strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -58,14 +66,13 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > index.size()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - index.size();
-    }
+    // Accomodate maximum possible length
+    const BytesRange workRange = ClipBytesRange(bytesRange, index.size());
 
     size_t charLocation = 0;
-    if (workRange.location > 0)
+    if (workRange.location == index.size())
+        charLocation = index.back() + 1;
+    else if (workRange.location > 0)
         charLocation = index[workRange.location];
 
     size_t charLength = 0;
@@ -95,8 +102,10 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
+    while (pos < len && source[pos]) {
+        size_t charLen = UTF8_CHAR_LEN(source[pos]);
+        if (charLen > len - pos)
+            charLen = len - pos; // truncated character
         pos += charLen;
 
         while (charLen) {
-- 
2.43.0


From e68713dc78d9897e451d0ffa42fed15e804bac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 02/49] fix: merging objects with properties keyed by a named
 type dereferenced null

---
 packages/drafter/src/refract/dsd/Extend.cc | 32 ++++++++++------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..29cfbd7 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -18,6 +18,7 @@
 #include "../InfoElements.h"
 #include "../TypeQueryVisitor.h"
 #include "../Utils.h"
+#include "../VisitorUtils.h"
 #include "../PrintVisitor.h"
 
 using namespace refract;
@@ -82,6 +83,13 @@ namespace
         }
     };
 
+    /**
+     * Name of a property; keys of variable properties may be of a named type, i.e. not StringElements */
+    std::string memberKey(const MemberElement& member)
+    {
+        return member.empty() ? std::string{} : GetKeyAsString(member);
+    }
+
     template <>
     struct ValueMerge<ObjectElement, true> {
 
@@ -93,39 +101,27 @@ namespace
                         value.set();
                     auto valueMatch = [&value, &m]() {
                         if (auto mergeMember = TypeQueryVisitor::as<const MemberElement>(m.get())) {
-                            assert(mergeMember);
-
-                            auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
+                            const auto mergeKey = memberKey(*mergeMember);
 
                             return std::find_if(
-                                value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
+                                value.get().begin(), value.get().end(), [&mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
-                                        auto valueKey
-                                            = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
-
-                                        return mergeKey->get() == valueKey->get();
+                                        return mergeKey == memberKey(*valueMember);
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
                                         return valueSelect->get().end()
                                             != std::find_if(valueSelect->get().begin(),
                                                    valueSelect->get().end(),
-                                                   [mergeKey](const std::unique_ptr<OptionElement>& option) {
+                                                   [&mergeKey](const std::unique_ptr<OptionElement>& option) {
                                                        return option->get().end()
                                                            != std::find_if(option->get().begin(),
                                                                   option->get().end(),
-                                                                  [mergeKey](const std::unique_ptr<IElement>& optEl) {
+                                                                  [&mergeKey](const std::unique_ptr<IElement>& optEl) {
                                                                       if (auto optElMember
                                                                           = TypeQueryVisitor::as<const MemberElement>(
                                                                               optEl.get())) {
-                                                                          auto optElMemberKey = TypeQueryVisitor::as<
-                                                                              const StringElement>(
-                                                                              optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
-                                                                              == mergeKey->get();
+                                                                          return mergeKey == memberKey(*optElMember);
                                                                       }
                                                                       return false;
                                                                   });
-- 
2.43.0


From 417b54a5ecdbebb6c3105e96ad4e752d9990d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 03/49] fix: unclosed list of MSON attributes was read before
 its beginning

---
 packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index e5d1954..01b721b 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -341,7 +341,7 @@ namespace scpl
                 size_t length = attribute.size();
 
                 // If the last char is not an attribute delimiter, attributes are finished
-                if (attribute[length - 1] != Delimiters::AttributeDelimiter) {
+                if (attribute.empty() || attribute[length - 1] != Delimiters::AttributeDelimiter) {
                     attributesNotFinished = false;
                 } else {
                     attribute = attribute.substr(0, length - 1);
-- 
2.43.0


From a157d1677bd491059c7221b6d128851346eebd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 04/49] fix: codes of parsing errors were outside of the values
 of drafter_error

---
 packages/drafter/src/drafter.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/drafter.h b/packages/drafter/src/drafter.h
index f36cf8a..ed30791 100644
--- a/packages/drafter/src/drafter.h
+++ b/packages/drafter/src/drafter.h
@@ -108,6 +108,7 @@ typedef enum
     DRAFTER_EUNKNOWN = -1,
     DRAFTER_EINVALID_INPUT = -2,
     DRAFTER_EINVALID_OUTPUT = -3,
+    DRAFTER_EPARSING_MAX = 0x7f, /* positive values up to this one are codes of parsing errors */
 } drafter_error;
 
 /* Parse API Blueprint and serialize it to given format.
-- 
2.43.0


From 72b2b911b8147af6d9cd0faa1cbbee6b572923bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 05/49] fix: comparing enums or holders without a value
 dereferenced null

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..d274266 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && (*l.value() == *r.value()));
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..a0d8b0e 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && (*l.data() == *r.data()));
 }
-- 
2.43.0


From 7f42a544318c606c0e978f4de909b72bfa0e9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 06/49] fix: expanding enums or holders without a value
 dereferenced null

---
 packages/drafter/src/refract/ExpandVisitor.cc       | 4 ++--
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..0eef996 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -73,7 +73,7 @@ namespace refract
             template <typename Functor>
             dsd::Enum operator()(const dsd::Enum& v, Functor& expand)
             {
-                return dsd::Enum{ expand(v.value()) };
+                return v.value() ? dsd::Enum{ expand(v.value()) } : dsd::Enum{};
             }
         };
 
@@ -83,7 +83,7 @@ namespace refract
             template <typename Functor>
             dsd::Holder operator()(const dsd::Holder& v, Functor& expand)
             {
-                return dsd::Holder{ expand(v.data()) };
+                return v.data() ? dsd::Holder{ expand(v.data()) } : dsd::Holder{};
             }
         };
 
diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From 8bb22413414378f1acddccfbc1b331f9a3e6927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 07/49] fix: appending to an absent list of values ignored the
 value

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From 428a807047ab3ecaad88510e4d5c77af51aa8842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 08/49] fix: reading a number above 32 bits as a 64-bit integer
 terminated the process

---
 packages/drafter/src/refract/dsd/Number.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Number.cc b/packages/drafter/src/refract/dsd/Number.cc
index d20e7df..aaa90df 100644
--- a/packages/drafter/src/refract/dsd/Number.cc
+++ b/packages/drafter/src/refract/dsd/Number.cc
@@ -41,7 +41,7 @@ const std::string& Number::get() const noexcept
 Number::operator std::int64_t() const noexcept
 {
     std::string::size_type idx;
-    std::int64_t result = std::stoi(value_, &idx);
+    std::int64_t result = std::stoll(value_, &idx);
     if (idx < value_.size())
         LOG(warning) << "dsd::Number to int; dropped trailing `" << value_.substr(idx) << "`";
     return result;
-- 
2.43.0


From 38dcd45179d971e234c63646b8643e4b9f3d2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 09/49] fix: looking up a member by its key never found any

---
 packages/drafter/src/refract/ComparableVisitor.cc | 5 +++++
 packages/drafter/src/refract/ComparableVisitor.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/packages/drafter/src/refract/ComparableVisitor.cc b/packages/drafter/src/refract/ComparableVisitor.cc
index 5127aab..7dd40ab 100644
--- a/packages/drafter/src/refract/ComparableVisitor.cc
+++ b/packages/drafter/src/refract/ComparableVisitor.cc
@@ -17,6 +17,11 @@ namespace refract
     {
     }
 
+    bool ComparableVisitor::IsEqual(const std::string& first, const dsd::String& second)
+    {
+        return first == second.get();
+    }
+
     void ComparableVisitor::operator()(const MemberElement& e)
     {
         ComparableVisitor cv(compare_to); // OPTIM: reuse current visitor
diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..8ac83b5 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -32,6 +32,8 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second);
+
     public:
         enum
         {
-- 
2.43.0


From c18265250e3b05717e9724b5cd73308ed72ec840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 10/49] fix: number of values of a type wrapped around instead
 of becoming open

---
 packages/drafter/src/refract/Cardinal.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..fa19b93 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -59,7 +59,7 @@ namespace refract
 
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
-        return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
+        return (lhs.data() >= cardinal::open().data() - rhs.data()) ? cardinal::open() :
                                                                       cardinal{ lhs.data() + rhs.data() };
     }
 
@@ -67,8 +67,8 @@ namespace refract
     {
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
-            ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+            ((lhs.data() > cardinal::open().data() / rhs.data()) ? cardinal::open() :
+                                                                   cardinal{ lhs.data() * rhs.data() });
     }
 }
 
-- 
2.43.0


From a83fb591e392b85282d168993731c0859c4df0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 11/49] fix: adding a second sample used the list of samples
 after freeing it

---
 packages/drafter/src/refract/ElementUtils.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..3ae8115 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -234,7 +234,6 @@ void refract::addSample(IElement& e, std::unique_ptr<IElement> sample)
             assert(false);
         }
         LOG(info) << "adding new sample";
-        e.attributes().set("samples", make_element<ArrayElement>(std::move(sample)));
         samples->get().push_back(std::move(sample));
     } else {
         LOG(error) << "expected samples to be held in Array Element content";
-- 
2.43.0


From e60841084bc3a1f95921969f3679472e1124ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 12/49] fix: malformed UTF-8 sequences were decoded as other
 characters

---
 packages/drafter/src/utils/Utf8.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..f2414eb 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,14 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            ///
+            /// Check that given octet continues a utf8 sequence
+            ///
+            constexpr bool is_continuation(char octet) noexcept
+            {
+                return (static_cast<unsigned char>(octet) & 0xC0) == 0x80;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -58,8 +66,12 @@ namespace drafter
 
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
+                    const bool valid = cp >= 0xC0 && is_continuation(first[1]);
                     std::advance(first, 2);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     return { result < 0x80 ? replacement : result, first }; // check for oversized
 
                 } else if (cp < 0xF0) { // three bytes
@@ -70,8 +82,12 @@ namespace drafter
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
+                    const bool valid = is_continuation(first[1]) && is_continuation(first[2]);
                     std::advance(first, 3);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     if (result >= 0xD800 && result <= 0xDFFF) // surrogates not codepoints
                         return { replacement, first };
 
@@ -85,8 +101,13 @@ namespace drafter
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
                         | (static_cast<unsigned char>(first[3]) & 0x3F);
+                    const bool valid
+                        = cp < 0xF8 && is_continuation(first[1]) && is_continuation(first[2]) && is_continuation(first[3]);
                     std::advance(first, 4);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     // check for oversized
                     if (result < 0x10000)
                         return { replacement, first };
-- 
2.43.0


From 0a1386ab57cae4d431a196340afb8b65b4d9fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 13/49] fix: YAML keys that read as null or a boolean were not
 quoted

---
 packages/drafter/src/utils/so/YamlIo.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..8421df9 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -33,6 +33,19 @@ namespace
         return true;
     }
 
+    // words that YAML reads as something else than a string
+    bool is_yaml_word(const std::string& str)
+    {
+        static const char* const words[] = { "", "null", "true", "false", "yes", "no", "on", "off", "y", "n" };
+
+        std::string lower{ str };
+        std::transform(lower.begin(), lower.end(), lower.begin(), [](char c) { //
+            return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c;
+        });
+
+        return std::find(std::begin(words), std::end(words), lower) != std::end(words);
+    }
+
     bool is_yaml_printable(const codepoint& c)
     {
         return (c == 0x9)                                  //
@@ -237,7 +250,7 @@ namespace
             do_indent(out, indent);
 
             // for clearer, unescaped reading
-            if (is_alphanum_dash(m.first))
+            if (is_alphanum_dash(m.first) && !is_yaml_word(m.first))
                 out << m.first;
             else
                 serialize_yaml(out, m.first);
-- 
2.43.0


From e5818f49d435129910f6eb51dc8a2fd86d3b8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 14/49] fix: empty and non-ASCII values of media type
 parameters were not quoted

---
 packages/drafter/src/backend/MediaTypeS11n.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/backend/MediaTypeS11n.cc b/packages/drafter/src/backend/MediaTypeS11n.cc
index f48a1f7..9b3cae7 100644
--- a/packages/drafter/src/backend/MediaTypeS11n.cc
+++ b/packages/drafter/src/backend/MediaTypeS11n.cc
@@ -47,8 +47,8 @@ namespace
         using std::begin;
         using std::end;
 
-        if (end(v) == std::find_if(begin(v), end(v), [](const char c) { //
-                return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
+        if (!v.empty() && end(v) == std::find_if(begin(v), end(v), [](const unsigned char c) { //
+                return is_tspecial(c) || c > 0x7F || std::isspace(c) || std::iscntrl(c);
             }))
             return (out << v);
 
-- 
2.43.0


From 07126a415108b1be70923da216cb79d43ebdc99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 15/49] fix: media type parameters after the first were lost
 when separated by a semicolon

---
 packages/apib-parser/src/grammar/Mediatype.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index adb1f23..27c22be 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -73,7 +73,11 @@ namespace apib
 
         // OPT convert to if_must<> to force correct attribute=value pair required
         struct parameter : pegtl::seq<attribute, pegtl::one<'='>, value> {}; 
-        struct parameters : pegtl::list<parameter, RWS> {};
+        struct parameter_separator : pegtl::sor<
+                                         pegtl::seq<OWS, pegtl::one<';'>, OWS>,
+                                         RWS
+                                     > {};
+        struct parameters : pegtl::list<parameter, parameter_separator> {};
 
         // type
         struct type : name {};
-- 
2.43.0


From d7272f0899da13fb0f7946372c29ae8296f07dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 16/49] fix: annotations that begin on a last line without a
 newline had no position

---
 packages/drafter/src/SourceMapUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..eac83f0 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,7 +18,7 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt != linesEndIndex.begin()) { // the last line does not have to end with a newline
             out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
         }
-- 
2.43.0


From b80d2ad436613ce95e6b2a9561e884a738857dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 17/49] fix: position of an empty range at the beginning was
 read before the index of lines

---
 packages/drafter/src/SourceMapUtils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index eac83f0..31c2e73 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -41,7 +41,10 @@ namespace drafter
 
         // end of byte mapping workarround
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt == linesEndIndex.begin()) { // nothing precedes the end of the range
+            out.toLine = out.fromLine;
+            out.toColumn = out.fromColumn;
+        } else if (annotationPositionIt != linesEndIndex.end()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
         }
-- 
2.43.0


From eec2e0f398377178d1f40a5df0afe3573696390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 18/49] fix: children of a copied markdown node referred to the
 copied node as their parent

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..a9fc1c2 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -28,6 +28,9 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
     this->sourceMap = rhs.sourceMap;
     this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
     this->m_parent = rhs.m_parent;
+
+    for (MarkdownNodes::iterator it = m_children->begin(); it != m_children->end(); ++it)
+        it->setParent(this);
 }
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
@@ -38,6 +41,10 @@ MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
     this->sourceMap = rhs.sourceMap;
     this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
     this->m_parent = rhs.m_parent;
+
+    for (MarkdownNodes::iterator it = m_children->begin(); it != m_children->end(); ++it)
+        it->setParent(this);
+
     return *this;
 }
 
-- 
2.43.0


From 106203820a9783615719f8dbaaaea65e8a0a3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 19/49] fix: assigning a markdown node below it to a node read
 the former after freeing it

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index a9fc1c2..967a6a2 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -35,12 +35,15 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
 {
+    // rhs may be one of the nodes below this one
+    std::unique_ptr<MarkdownNodes> children(::new MarkdownNodes(*rhs.m_children.get()));
+
     this->type = rhs.type;
     this->text = rhs.text;
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
-    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
     this->m_parent = rhs.m_parent;
+    this->m_children.swap(children);
 
     for (MarkdownNodes::iterator it = m_children->begin(); it != m_children->end(); ++it)
         it->setParent(this);
-- 
2.43.0


From 1f8b948d7cb14fea33a2ec7caea2819250420b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 20/49] fix: source map of a list item's text exceeded a source
 without a final newline

---
 .../src/markdown-parser/MarkdownParser.cc      | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
index 4dfeabb..dca3f20 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
@@ -341,38 +341,36 @@ void MarkdownParser::blockDidParse(const BytesRangeSet& sourceMap)
     // If new source map would exceed the actual source size
     // this happens when sundown appends an artifical new line
     // truncate the source map length to match the actual size
-    if (sourceMap.back().location + sourceMap.back().length > m_sourceLength) {
+    BytesRangeSet workMap = sourceMap;
+    if (workMap.back().location + workMap.back().length > m_sourceLength) {
 
-        size_t workMapLength = m_sourceLength - sourceMap.back().location;
+        size_t workMapLength = m_sourceLength - workMap.back().location;
         if (!workMapLength)
             return; // Ignore any artifical trailing new lines in source maps
 
-        BytesRangeSet workMap = sourceMap;
         workMap.back().length = workMapLength;
-        lMarkdownNode.sourceMap.append(workMap);
-    } else {
-
-        lMarkdownNode.sourceMap.append(sourceMap);
     }
 
+    lMarkdownNode.sourceMap.append(workMap);
+
     // No "inline" list items:
     // Share the list item source map with its artifical node, if exists.
     if (lMarkdownNode.type == ListItemMarkdownNodeType && !lMarkdownNode.children().empty()
         && lMarkdownNode.children().front().sourceMap.empty()) {
 
         ByteBuffer& buffer = lMarkdownNode.children().front().text;
-        ByteBuffer mapped = MapBytesRangeSet(sourceMap, *m_source);
+        ByteBuffer mapped = MapBytesRangeSet(workMap, *m_source);
         size_t pos = mapped.find(buffer);
 
         if (pos != mapped.npos) {
-            BytesRange range = sourceMap.front();
+            BytesRange range = workMap.front();
             range.location += pos;
             range.length = buffer.length();
             BytesRangeSet newMap;
             newMap.push_back(range);
             lMarkdownNode.children().front().sourceMap.append(newMap);
         } else {
-            lMarkdownNode.children().front().sourceMap.append(sourceMap);
+            lMarkdownNode.children().front().sourceMap.append(workMap);
         }
     }
 }
-- 
2.43.0


From e3ac16dc821d9cf2e8432ac5211d98d82c51147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 21/49] fix: a header line of form feeds or vertical tabs took
 the rest of the document as a header

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index c22eddf..4259e7d 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -59,14 +59,15 @@ namespace snowcrash
     // Get Trim Info
     inline TrimRange GetTrimInfo(std::string::const_iterator begin, std::string::const_iterator end)
     {
+        std::string::const_iterator trim = std::find_if(begin, end, std::not1(std::ptr_fun(isSpace)));
+
         std::string::const_reverse_iterator rbegin(end);
-        std::string::const_reverse_iterator rend(begin);
+        std::string::const_reverse_iterator rend(trim); // just what is left, i.e. nothing if there are but spaces
 
-        std::string::const_iterator trim = std::find_if(begin, end, std::not1(std::ptr_fun(isSpace)));
         std::string::const_reverse_iterator rtrim = std::find_if(rbegin, rend, std::not1(std::ptr_fun(isSpace)));
 
         return std::make_tuple(
-            std::distance(begin, trim), std::distance(rtrim, std::string::const_reverse_iterator(trim)));
+            std::distance(begin, trim), std::distance(rtrim, rend));
     }
 
     // Split string by delim
-- 
2.43.0


From 5f16297c3f9fbf8aeeff42978749a55d4163f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 22/49] fix: texts shorter than two characters were read before
 their beginning when newlines were added

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index 4259e7d..8b258de 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -107,11 +107,11 @@ namespace snowcrash
     inline std::string& TwoNewLines(std::string& s)
     {
 
-        if (s[s.length() - 1] != '\n') {
+        if (s.empty() || s[s.length() - 1] != '\n') {
             s += "\n";
         }
 
-        if (s[s.length() - 2] != '\n') {
+        if (s.length() < 2 || s[s.length() - 2] != '\n') {
             s += "\n";
         }
 
-- 
2.43.0


From 1b5dd2f5734de53f0a58792503a43a9178ece4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 23/49] fix: unquoted media type parameters that are tokens but
 not names were lost

---
 packages/apib-parser/src/grammar/Mediatype.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index 27c22be..ee5a525 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -65,7 +65,9 @@ namespace apib
                            pegtl::rep_max<126, pegtl::sor<pegtl::ascii::alnum, restricted> >
                        > {};
 
-        struct nonquoted : name {}; // nonqouted is used in parameter value to allow action template specialization
+        struct tspecial : pegtl::one< '(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=' > {};
+
+        struct nonquoted : pegtl::plus<pegtl::not_at<tspecial>, pegtl::abnf::VCHAR> {}; // token
 
         // parameters
         struct attribute : name {};
-- 
2.43.0


From 47fad900fc7fd4124a3e16e5bf2de06bf4af2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 24/49] fix: entries of a log below its level were written
 without the end of line

---
 packages/drafter/src/utils/log/Trivial.cc | 19 ++++++++-----------
 packages/drafter/src/utils/log/Trivial.h  |  5 +++--
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/packages/drafter/src/utils/log/Trivial.cc b/packages/drafter/src/utils/log/Trivial.cc
index 37b8408..14b77a4 100644
--- a/packages/drafter/src/utils/log/Trivial.cc
+++ b/packages/drafter/src/utils/log/Trivial.cc
@@ -56,22 +56,19 @@ const char* log::severity_to_str(severity s)
 }
 
 trivial_entry::trivial_entry(trivial_log& log, severity svrty, size_t line, const char* file)
-    : log_(log), severity_(svrty), log_lock_(log_.mtx())
+    : log_(log), severity_(svrty), log_lock_(log_.mtx()), out_(enough_severity(svrty) ? log_.out() : nullptr)
 {
-    if (enough_severity(severity_))
-        if (auto* out = log_.out()) {
-            *out << '[' << severity_to_str(svrty) << "]";
-            *out << '[' << std::this_thread::get_id() << "]";
-            *out << '[' << file << ':' << line << "] ";
-        }
+    if (out_) {
+        *out_ << '[' << severity_to_str(svrty) << "]";
+        *out_ << '[' << std::this_thread::get_id() << "]";
+        *out_ << '[' << file << ':' << line << "] ";
+    }
 }
 
 trivial_entry::~trivial_entry()
 {
-    if (enough_severity(severity_))
-        if (auto* out = log_.out()) {
-            *out << '\n'; // TODO @tjanc@ could throw
-        }
+    if (out_)
+        *out_ << '\n'; // TODO @tjanc@ could throw
 }
 
 std::mutex& trivial_log::mtx() const
diff --git a/packages/drafter/src/utils/log/Trivial.h b/packages/drafter/src/utils/log/Trivial.h
index 2419d09..8ca75f6 100644
--- a/packages/drafter/src/utils/log/Trivial.h
+++ b/packages/drafter/src/utils/log/Trivial.h
@@ -42,6 +42,7 @@ namespace drafter
                 trivial_log& log_;
                 severity severity_;
                 std::lock_guard<std::mutex> log_lock_;
+                std::ostream* out_; // null if the entry is not to be written
 
             public:
                 trivial_entry(trivial_log& log, severity svrty, size_t line, const char* file);
@@ -78,8 +79,8 @@ namespace drafter
             template <typename T>
             trivial_entry& trivial_entry::operator<<(T&& obj)
             {
-                if (auto* out = log_.out())
-                    *out << std::forward<T>(obj);
+                if (out_)
+                    *out_ << std::forward<T>(obj);
                 return *this;
             }
         } // namespace log
-- 
2.43.0


From ea9831207a44f1b7314965e4495ab067f66426e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 25/49] fix: source maps of headers in sections were in
 characters where those of all other elements are in bytes

---
 packages/apib-parser/src/snowcrash/HeadersParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.h b/packages/apib-parser/src/snowcrash/HeadersParser.h
index ca1613b..608e81a 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.h
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.h
@@ -298,7 +298,7 @@ namespace snowcrash
 
                     if (pd.exportSourceMap()) {
                         SourceMap<Header> headerSM;
-                        headerSM.sourceMap = sourceMap;
+                        headerSM.sourceMap = byteMap;
                         out.sourceMap.collection.push_back(headerSM);
                     }
                 }
-- 
2.43.0


From 64c7ecf4c774225096d7f4fe958dc849559ef13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 26/49] fix: source map of a description in several pieces
 listed the ranges of a common node repeatedly

---
 packages/drafter/src/RefractDataStructure.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index b7b72fb..70fa1d7 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -950,7 +950,16 @@ namespace
                     info.description.append("\n");
 
                 info.description.append(item.description);
-                info.sourceMap.sourceMap.append(item.sourceMap.sourceMap);
+
+                // pieces of a description may come from the same markdown node,
+                // i.e. ranges of a piece may already be included
+                auto& ranges = info.sourceMap.sourceMap;
+                mdp::BytesRangeSet further;
+                for (const auto& range : item.sourceMap.sourceMap) {
+                    if (ranges.empty() || range.location >= ranges.back().location + ranges.back().length)
+                        further.push_back(range);
+                }
+                ranges.append(further);
 
                 return info;
             });
-- 
2.43.0


From c6552662afe5ac8d6dbd5f90bdd424fcc0084150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 27/49] fix: booleans followed by the end of their line were
 refused as invalid values

---
 packages/drafter/src/Serialize.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/Serialize.cc b/packages/drafter/src/Serialize.cc
index 8c53735..8c47594 100644
--- a/packages/drafter/src/Serialize.cc
+++ b/packages/drafter/src/Serialize.cc
@@ -17,8 +17,17 @@ using namespace refract;
 template <>
 std::pair<bool, dsd::Boolean> drafter::LiteralTo<dsd::Boolean>(const mson::Literal& literal)
 {
-    if (literal == "true" || literal == "false") {
-        return std::make_pair(true, dsd::Boolean{ literal == SerializeKey::True });
+    // ignore spaces to the right
+    auto match_end = literal.end();
+    for (; match_end != literal.begin(); --match_end) {
+        if (!std::isspace(static_cast<unsigned char>(*(match_end - 1))))
+            break;
+    }
+
+    const mson::Literal trimmed(literal.begin(), match_end);
+
+    if (trimmed == "true" || trimmed == "false") {
+        return std::make_pair(true, dsd::Boolean{ trimmed == SerializeKey::True });
     }
     return std::make_pair(false, dsd::Boolean{});
 }
-- 
2.43.0


From cf9a02c3888ea3a90340a7fc62fff4ce67545861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 28/49] fix: define each property once in JSON Schemas

When a type inherits from and includes types that define the same property,
the schema had the property twice, in 'properties' and in 'required'.
---
 packages/drafter/src/refract/JsonSchema.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 6b05d82..176be81 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -734,10 +734,14 @@ namespace
         } else {
             auto strKey = key(e);
 
-            s.properties.data.emplace_back(strKey, makeSchema(*v, passFlags(options)));
+            // a later definition of a property overrides an earlier one, e.g. an inherited one
+            emplace_unique(s.properties, strKey, makeSchema(*v, passFlags(options)));
+
+            auto& required = s.required.data;
+            required.erase(std::remove(required.begin(), required.end(), so::Value{ so::String{ strKey } }), required.end());
 
             if (options.test(REQUIRED_FLAG))
-                s.required.data.emplace_back(so::String{ strKey });
+                required.emplace_back(so::String{ strKey });
         }
     }
 
-- 
2.43.0


From a52782bcb8684897a1b6e577504eba32514726df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 29/49] fix: do not create the output file when only validating

The program warns that the output file will not be created while validating,
and then created it, or truncated an existing one.
---
 packages/drafter/src/main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 55071f1..7adbb0c 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -73,7 +73,10 @@ int main(int argc, const char* argv[])
     ParseCommadLineOptions(argc, argv, config);
 
     std::unique_ptr<std::istream> in(CreateStreamFromName<std::istream>(config.input));
-    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.output));
+    std::unique_ptr<std::ostream> out;
+
+    if (!config.validate) // there is no output otherwise
+        out.reset(CreateStreamFromName<std::ostream>(config.output));
 
     return ProcessRefract(config, in, out);
 }
-- 
2.43.0


From 347447383cc49ecd67e0a8deb2f7e880497dffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 30/49] fix: report output that could not be written

A full disk or a closed device left the output incomplete, while the program
said nothing and ended with success.
---
 packages/drafter/src/main.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 7adbb0c..881587d 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -25,6 +25,8 @@ namespace sc = snowcrash;
 
 int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std::unique_ptr<std::ostream>& out)
 {
+    bool written = true;
+
     if (config.enableLog)
         ENABLE_LOGGING;
 
@@ -53,6 +55,7 @@ int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std:
 
         if (output) {
             *out << output << "\n" << std::flush;
+            written = out->good();
 
             free(output);
         }
@@ -64,6 +67,11 @@ int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std:
 
     drafter_free_result(result);
 
+    if (!written) {
+        std::cerr << "fatal: unable to write output\n";
+        return ret ? ret : EXIT_FAILURE;
+    }
+
     return ret;
 }
 
-- 
2.43.0


From 0c53a78d4be1f8bbf01561e2af6bdef4672e4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 31/49] fix: report input that could not be read

A directory, or a file that failed to be read, was taken for an empty
document.
---
 packages/drafter/src/main.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 881587d..81e5867 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -31,7 +31,17 @@ int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std:
         ENABLE_LOGGING;
 
     std::stringstream inputStream;
-    inputStream << in->rdbuf();
+    char buffer[4096];
+
+    do {
+        in->read(buffer, sizeof(buffer));
+        inputStream.write(buffer, in->gcount());
+    } while (*in);
+
+    if (in->bad()) {
+        std::cerr << "fatal: unable to read input\n";
+        return EXIT_FAILURE;
+    }
 
     drafter_serialize_options* options = drafter_init_serialize_options();
     if (config.sourceMap)
-- 
2.43.0


From e522f78c18c61a814f9f791f17f09074d20695b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 32/49] fix: ignore additional bodies and schemas, as the
 warning says

A second 'Body' or 'Schema' section of a payload replaced the first one, while
the warning says that the additional content is ignored, and was added to the
source map of the first.
---
 packages/apib-parser/src/snowcrash/PayloadParser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index a609d2d..5473397 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -188,6 +188,9 @@ namespace snowcrash
                             Warning("ignoring additional 'body' content, it is already defined",
                                 RedefinitionWarning,
                                 sourceMap));
+
+                        IntermediateParseResult<Asset> ignored(out.report);
+                        return AssetParser::parse(node, siblings, pd, ignored);
                     }
 
                     ParseResultRef<Asset> asset(out.report, out.node.body, out.sourceMap.body);
@@ -203,6 +206,9 @@ namespace snowcrash
                             Warning("ignoring additional 'schema' content, it is already defined",
                                 RedefinitionWarning,
                                 sourceMap));
+
+                        IntermediateParseResult<Asset> ignored(out.report);
+                        return AssetParser::parse(node, siblings, pd, ignored);
                     }
 
                     ParseResultRef<Asset> asset(out.report, out.node.schema, out.sourceMap.schema);
-- 
2.43.0


From 6fde9c705f85671e05f2fd50ef8f31eadb6b0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 33/49] fix: check parameters of abbreviated resources against
 the URI template

Parameters of a resource written as '# GET /path' that are not part of its
template were accepted silently, while those of any other resource are
reported.
---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 4682a7a..8b034f9 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -338,6 +338,10 @@ namespace snowcrash
             IntermediateParseResult<Action> action(out.report);
             MarkdownNodeIterator cur = ActionParser::parse(node, siblings, pd, action);
 
+            if (!action.node.parameters.empty() && action.node.uriTemplate.empty()) {
+                checkParametersEligibility<Resource>(node, pd, action.node.parameters, out);
+            }
+
             out.node.actions.push_back(action.node);
             layout = RedirectSectionLayout;
 
-- 
2.43.0


From 32b930e0e1d3997403a9546e65cdcbe2172c5779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 34/49] fix: do not break characters apart in warnings about
 URI templates

The warning about an invalid percent encoding quoted three bytes, hence could
end within a character and make the output invalid UTF-8.
---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d64597c..79bb8e9 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -36,8 +36,8 @@ namespace error_locator
      */
     struct pct_triplet : pegtl::seq<
                                    pegtl::one<'%'>,
-                                   pegtl::any,
-                                   pegtl::any
+                                   pegtl::utf8::any,
+                                   pegtl::utf8::any
                                  > {};
 
     struct continuous_dots : pegtl::seq<
-- 
2.43.0


From a367f9d45252291128eea7e7e9be773696064638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:10 +0000
Subject: [PATCH 35/49] fix: do not break characters apart in warnings about
 header names

---
 .../apib-parser/src/snowcrash/HeadersParser.cc  | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index aa18c54..d6bec9a 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -60,10 +60,21 @@ bool HeaderNameTokenChecker::operator()() const
 std::string HeaderNameTokenChecker::getMessage() const
 {
 
-    const char invalidChar = *findNonValidCharInHeaderName(headerName);
+    const auto begin = findNonValidCharInHeaderName(headerName);
+    auto end = std::next(begin);
+
+    // the rest of a multi-byte UTF-8 character
+    while (end != headerName.end() && (static_cast<unsigned char>(*end) & 0xC0) == 0x80)
+        ++end;
+
     std::stringstream ss;
-    ss << "HTTP header name '" << headerName << "' contains illegal character '" << invalidChar << "' (0x" << std::hex
-       << static_cast<int16_t>(invalidChar) << ") skipping the header";
+    ss << "HTTP header name '" << headerName << "' contains illegal character '" << std::string(begin, end) << "' (0x"
+       << std::hex;
+
+    for (auto it = begin; it != end; ++it)
+        ss << static_cast<int>(static_cast<unsigned char>(*it));
+
+    ss << ") skipping the header";
 
     return ss.str();
 }
-- 
2.43.0


From ec51605313fe1b03e9680bfd83d033a3e9cc1491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:04 +0000
Subject: [PATCH 36/49] fix: accept exclamation marks in header names

---
 packages/apib-parser/src/snowcrash/HeadersParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index d6bec9a..4ded139 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -40,7 +40,7 @@ static bool isAllowedMultipleDefinition(const Header& header)
 
 static bool isNotValidTokenChar(const std::string::value_type& c)
 {
-    static const std::string validChars("-#$%&'*+.^_`|~");
+    static const std::string validChars("!-#$%&'*+.^_`|~");
 
     return !(std::isalnum(c) || (validChars.find(c) != std::string::npos));
 }
-- 
2.43.0


From 544f4858cc0b78e4cfd877bfcd6f8249a969ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 37/49] fix: stop at circles when looking for the root of a
 type's inheritance

---
 packages/drafter/src/NamedTypesRegistry.cc | 7 +++++++
 packages/drafter/src/refract/Registry.cc   | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/NamedTypesRegistry.cc b/packages/drafter/src/NamedTypesRegistry.cc
index a4ae0f2..37e96ed 100644
--- a/packages/drafter/src/NamedTypesRegistry.cc
+++ b/packages/drafter/src/NamedTypesRegistry.cc
@@ -4,6 +4,7 @@
 #include <map>
 #include <set>
 #include <string>
+#include <vector>
 
 #include "Blueprint.h"
 #include "ConversionContext.h"
@@ -335,9 +336,15 @@ namespace
 
         mson::BaseTypeName ResolveType(const snowcrash::DataStructure* object) const
         {
+            std::vector<std::string> symbols;
             std::string s = name(object);
 
             while (!s.empty()) {
+                if (symbols.end() != std::find(symbols.begin(), symbols.end(), s)) {
+                    return mson::UndefinedTypeName; // circular reference
+                }
+                symbols.emplace_back(s);
+
                 ElementMap::const_iterator ei = nameToElement.find(s);
                 if (ei == nameToElement.end()) {
                     return mson::UndefinedTypeName;
diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..c06e030 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <vector>
 
 using namespace refract;
 
@@ -36,11 +37,14 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::vector<const IElement*> visited;
 
     while (parent && !isReserved(parent->element())) {
         const IElement* next = registry.find(parent->element());
 
-        if (!next || (next == parent)) {
+        visited.emplace_back(parent);
+
+        if (!next || std::find(visited.begin(), visited.end(), next) != visited.end()) {
             return parent;
         }
 
-- 
2.43.0


From 3e8cf435050ca84cb81731b51fa68f50108a4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 38/49] fix: a payload that refers to a model takes the model's
 attributes, too

---
 packages/apib-parser/src/snowcrash/PayloadParser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index 5473397..543dde8 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -590,6 +590,7 @@ namespace snowcrash
                 out.node.headers = model.headers;
             }
 
+            out.node.attributes = model.attributes;
             out.node.body = model.body;
             out.node.schema = model.schema;
 
@@ -599,6 +600,7 @@ namespace snowcrash
 
                 out.sourceMap.description = modelSM.description;
                 out.sourceMap.parameters = modelSM.parameters;
+                out.sourceMap.attributes = modelSM.attributes;
                 out.sourceMap.body = modelSM.body;
                 out.sourceMap.schema = modelSM.schema;
 
-- 
2.43.0


From e9e34861d6f8a71734b0e0e24643b89ac69ab32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:59 +0000
Subject: [PATCH 39/49] fix: schema of several variable properties admits each
 of them

---
 packages/drafter/src/refract/JsonSchema.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 176be81..88dc79c 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -295,6 +295,21 @@ namespace
         so::Array allOf = {};
     };
 
+    // a name that matches a pattern may be any of the properties with that pattern
+    void emplacePattern(so::Object& patterns, const std::string& pattern, so::Object schema)
+    {
+        auto it = std::find_if(patterns.data.begin(), patterns.data.end(), [&pattern](const std::pair<std::string, so::Value>& m) {
+            return m.first == pattern;
+        });
+
+        if (it == patterns.data.end()) {
+            patterns.data.emplace_back(pattern, std::move(schema));
+        } else if (!(it->second == so::Value{ schema })) {
+            so::Array anyOf{ so::from_list{}, std::move(it->second), std::move(schema) };
+            it->second = so::Object{ so::from_list{}, std::make_pair("anyOf", std::move(anyOf)) };
+        }
+    }
+
     so::Object& materialize(so::Object& result, ObjectSchema s)
     {
         if (!s.properties.data.empty())
@@ -716,13 +731,13 @@ namespace
                     assert(false);
                 }
 
-                emplace_unique(s.patternProperties, //
+                emplacePattern(s.patternProperties, //
                     renderPattern(*strKey, passFlags(options)),
                     makeSchema(*v, passFlags(options)));
 
             } else if (const auto& strKey = get<const StringElement>(k)) {
 
-                emplace_unique(s.patternProperties, //
+                emplacePattern(s.patternProperties, //
                     renderPattern(*strKey, passFlags(options)),
                     makeSchema(*v, passFlags(options)));
 
-- 
2.43.0


From e0405ad6694453ff1766e0a7e6c5a321f41314b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:59 +0000
Subject: [PATCH 40/49] fix: annotate values in line that are not of the type
 of their array or enum

---
 packages/drafter/src/RefractDataStructure.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index 70fa1d7..627e52c 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -115,6 +115,21 @@ namespace
         }
     };
 
+    // values of an array or enum that are given in line, e.g. `- a: 1, 2 (array[number])`
+    void CheckInlineValues(
+        const NodeInfo<mson::ValueMember>& valueMember, const mson::BaseTypeName type, ConversionContext& context)
+    {
+        for (const auto& value : valueMember.node->valueDefinition.values) {
+            if (type == mson::NumberTypeName) {
+                CheckValueValidity<NumberElement>()(
+                    ElementInfo<NumberElement>{ value.literal, FetchSourceMap<dsd::Number>()(valueMember) }, context);
+            } else if (type == mson::BooleanTypeName) {
+                CheckValueValidity<BooleanElement>()(
+                    ElementInfo<BooleanElement>{ value.literal, FetchSourceMap<dsd::Boolean>()(valueMember) }, context);
+            }
+        }
+    }
+
     void SetElementType(IElement& element, const mson::TypeDefinition& td)
     {
         if (!td.typeSpecification.name.symbol.literal.empty()) {
@@ -502,6 +517,8 @@ namespace
                 const mson::BaseTypeName type = SelectNestedTypeSpecification(
                     valueMember.node->valueDefinition.typeDefinition.typeSpecification.nestedTypes);
 
+                CheckInlineValues(valueMember, type, context);
+
                 const RefractElementFactory& factory = FactoryFromType(type);
                 const mson::Values& values = valueMember.node->valueDefinition.values;
 
@@ -525,6 +542,8 @@ namespace
                 const mson::BaseTypeName type = SelectNestedTypeSpecification(
                     valueMember.node->valueDefinition.typeDefinition.typeSpecification.nestedTypes);
 
+                CheckInlineValues(valueMember, type, context);
+
                 const RefractElementFactory& f = FactoryFromType(type);
                 const mson::Values& values = valueMember.node->valueDefinition.values;
 
-- 
2.43.0


From 0f0210e61e427bb16209c359b01674be8d977187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:59 +0000
Subject: [PATCH 41/49] fix: headers of a resource without source maps asked
 for

---
 .../apib-parser/src/snowcrash/ResourceParser.h    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 8b034f9..4677398 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -292,10 +292,19 @@ namespace snowcrash
                 Collection<Action>::iterator actionIt = out.node.actions.begin();
                 Collection<SourceMap<Action> >::iterator actionSMIt = out.sourceMap.actions.collection.begin();
 
-                for (; actionIt != out.node.actions.end(); ++actionIt, ++actionSMIt) {
+                SourceMap<TransactionExamples> noSourceMap;
 
-                    SectionProcessor<Headers>::injectDeprecatedHeaders(
-                        pd, out.node.headers, out.sourceMap.headers, actionIt->examples, actionSMIt->examples);
+                for (; actionIt != out.node.actions.end(); ++actionIt) {
+
+                    SectionProcessor<Headers>::injectDeprecatedHeaders(pd,
+                        out.node.headers,
+                        out.sourceMap.headers,
+                        actionIt->examples,
+                        pd.exportSourceMap() ? actionSMIt->examples : noSourceMap);
+
+                    if (pd.exportSourceMap()) {
+                        ++actionSMIt;
+                    }
                 }
 
                 out.node.headers.clear();
-- 
2.43.0


From 6e73d8d64c5b9253a7b060d03ee70d02657efaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:59 +0000
Subject: [PATCH 42/49] fix: ignored attributes of a resource keep no source
 map

---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 4677398..a5cfd08 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -129,6 +129,7 @@ namespace snowcrash
 
                             // Remove the attributes data from the AST since we are ignoring this
                             out.node.attributes = mson::NamedType();
+                            out.sourceMap.attributes = SourceMap<Attributes>();
 
                             return cur;
                         }
-- 
2.43.0


From 650f95bdf6f8a44a564cb804831776ee9e524eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:26 +0000
Subject: [PATCH 43/49] fix: the resource of a named endpoint has the place of
 its name

---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index a5cfd08..264dfa0 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -358,6 +358,10 @@ namespace snowcrash
             if (pd.exportSourceMap()) {
                 out.sourceMap.actions.collection.push_back(action.sourceMap);
                 out.sourceMap.uriTemplate.sourceMap = node->sourceMap;
+
+                if (!out.node.name.empty()) {
+                    out.sourceMap.name.sourceMap = node->sourceMap;
+                }
             }
 
             return cur;
-- 
2.43.0


From 4feb9229c8fd4f8a6911d43065b60a8003c46d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 44/49] fix: body has the items of an included array type that
 inherits from another

---
 packages/drafter/src/refract/JsonValue.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonValue.cc b/packages/drafter/src/refract/JsonValue.cc
index a8c0005..4bf945a 100644
--- a/packages/drafter/src/refract/JsonValue.cc
+++ b/packages/drafter/src/refract/JsonValue.cc
@@ -520,9 +520,9 @@ namespace
         const IElement* resolved = resolve(element);
         if (!resolved) {
             LOG(warning) << "ignoring unresolved reference in json value backend";
-        } else if (const auto& mixin = get<const ArrayElement>(resolved)) {
+        } else {
             // OPTIM @tjanc@ avoid temporary container
-            so::Value mixinValue = renderValueSpecific(*mixin, passFlags(options));
+            so::Value mixinValue = renderValue(*resolved, passFlags(options));
             if (const so::Array* mixinValueArray = mpark::get_if<so::Array>(&mixinValue))
                 std::move(mixinValueArray->data.begin(), mixinValueArray->data.end(), std::back_inserter(array.data));
         }
-- 
2.43.0


From 5b43342753d2bbd26bee95d194a3f202c28f52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 45/49] fix: schema of a fixed array has the items of an
 included array, not a nested one

---
 packages/drafter/src/refract/JsonSchema.cc | 50 ++++++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 88dc79c..42bc1b3 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -441,6 +441,33 @@ namespace
         return schema;
     }
 
+    // schemas of the entries of an array; those of an included array are entries of the array that includes it
+    void makeItems(so::Array& items, const ArrayElement& e, TypeAttributes options)
+    {
+        if (e.empty())
+            return;
+
+        for (const auto& entry : e.get()) {
+            assert(entry);
+            if (const auto& ref = get<const RefElement>(entry.get())) {
+                const IElement* resolved = resolve(*ref);
+                std::unique_ptr<IElement> merged;
+
+                if (const auto& extend = get<const ExtendElement>(resolved)) {
+                    merged = extend->get().merge();
+                    resolved = merged.get();
+                }
+
+                if (const auto& mixin = get<const ArrayElement>(resolved))
+                    makeItems(items, *mixin, options);
+                else
+                    LOG(warning) << "ignoring reference to other than an array in an array";
+            } else {
+                items.data.emplace_back(makeSchema(*entry, inheritOrPassFlags(options, *entry)));
+            }
+        }
+    }
+
     so::Object& renderSchemaSpecific(so::Object& s, const ArrayElement& e, TypeAttributes options)
     {
         constexpr const char* TYPE_NAME = "array";
@@ -452,18 +479,17 @@ namespace
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
 
-            if (e.empty()) {
+            so::Array entries{};
+            makeItems(entries, e, options);
+
+            if (entries.data.empty()) {
                 addMaxItems(schema, 0);
-            } else if (e.get().size() == 1) {
-                const auto& entry = *e.get().begin();
-                so::Object items = makeSchema(*entry, inheritOrPassFlags(options, *entry));
-                addItems(schema, std::move(items));
+            } else if (entries.data.size() == 1) {
+                addItems(schema, mpark::get<so::Object>(std::move(entries.data.front())));
             } else {
                 so::Array items{};
-                for (const auto& entry : e.get()) {
-                    assert(entry);
-                    so::emplace_unique(items, makeSchema(*entry, inheritOrPassFlags(options, *entry)));
-                }
+                for (auto& entry : entries.data)
+                    so::emplace_unique(items, std::move(entry));
 
                 addItems(schema, so::Object{ so::from_list{}, std::make_pair("anyOf", std::move(items)) });
             }
@@ -471,11 +497,7 @@ namespace
         } else if (options.test(FIXED_FLAG)) { // tuple of N constants/types
 
             so::Array items{};
-            if (!e.empty())
-                for (const auto& item : e.get()) {
-                    assert(item);
-                    items.data.emplace_back(makeSchema(*item, inheritOrPassFlags(options, *item)));
-                }
+            makeItems(items, e, options);
 
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
-- 
2.43.0


From 21761cc036ebdf0ca90f908d678799bfbfa981d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 46/49] fix: schema of a fixed object with choices admits the
 properties of the choices

---
 packages/drafter/src/refract/JsonSchema.cc | 24 +++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 42bc1b3..fab1298 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -310,6 +310,25 @@ namespace
         }
     }
 
+    // admit the properties of choices, which are specified there
+    void emplaceChoices(so::Object& schema, const so::Object& choices)
+    {
+        for (const auto& entry : choices.data) {
+            if (entry.first == "allOf" || entry.first == "oneOf") {
+                for (const auto& choice : mpark::get<so::Array>(entry.second).data)
+                    emplaceChoices(schema, mpark::get<so::Object>(choice));
+            } else if (entry.first == "properties" || entry.first == "patternProperties") {
+                if (!so::find(schema, entry.first))
+                    schema.data.emplace_back(entry.first, so::Object{});
+
+                auto& known = mpark::get<so::Object>(*so::find(schema, entry.first));
+                for (const auto& property : mpark::get<so::Object>(entry.second).data)
+                    if (!so::find(known, property.first))
+                        known.data.emplace_back(property.first, so::Object{});
+            }
+        }
+    }
+
     so::Object& materialize(so::Object& result, ObjectSchema s)
     {
         if (!s.properties.data.empty())
@@ -433,10 +452,13 @@ namespace
             }
         }
 
+        const auto choices = result.allOf;
         materialize(schema, std::move(result));
 
-        if (options.test(FIXED_TYPE_FLAG) || options.test(FIXED_FLAG))
+        if (options.test(FIXED_TYPE_FLAG) || options.test(FIXED_FLAG)) {
+            emplaceChoices(schema, so::Object{ so::from_list{}, std::make_pair("allOf", choices) });
             addAdditionalProperties(schema, so::False{});
+        }
 
         return schema;
     }
-- 
2.43.0


From 48ad957bd7af3a3da28846f328e7584e369f425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:27 +0000
Subject: [PATCH 47/49] fix: default and sample of a primitive keep the line
 breaks of their text

---
 packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
index c631b23..116472f 100644
--- a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
@@ -149,6 +149,10 @@ namespace snowcrash
                 && (out.node.baseType == mson::PrimitiveBaseType
                     || out.node.baseType == mson::ImplicitPrimitiveBaseType)) {
 
+                if (!out.node.content.value.empty()) {
+                    out.node.content.value += "\n";
+                }
+
                 out.node.content.value += signature.remainingContent;
 
                 if (pd.exportSourceMap()) {
-- 
2.43.0


From 4438f678be3a01d5e4f4acd9d5b12d918570e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 48/49] fix: the place of a default or sample in several lines
 is named once

---
 packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
index 116472f..1bac1a9 100644
--- a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
@@ -156,7 +156,7 @@ namespace snowcrash
                 out.node.content.value += signature.remainingContent;
 
                 if (pd.exportSourceMap()) {
-                    out.sourceMap.value.sourceMap.append(node->sourceMap);
+                    out.sourceMap.value.sourceMap = node->sourceMap;
                 }
             }
 
-- 
2.43.0


From 09c7218c7da2cdf2a27a19808ef69de5e577db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:32 +0000
Subject: [PATCH 49/49] fix: a choice keeps its attributes when it is expanded

---
 packages/drafter/src/refract/ExpandVisitor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 0eef996..453affb 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -334,6 +334,7 @@ namespace refract
             auto& content = o->get();
 
             o->meta() = e.meta(); // clone
+            o->attributes() = e.attributes();
 
             for (const auto& opt : e.get()) {
                 content.push_back(std::unique_ptr<OptionElement>(
-- 
2.43.0

