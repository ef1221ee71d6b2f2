From 1f7a186852e6be29a67bbcf1717bdf7e25eed42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 01/50] fix: include every standard header the generated code
 uses

A generated header did not compile unless <limits> was included before it.
---
 source/cpp/json-number.hh | 5 +++++
 source/cpp/json-string.hh | 2 ++
 source/cpp/protogen.hh    | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..9056bea 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -3,6 +3,11 @@
 #ifndef PROTOGEN_X_Y_Z__JSON_NUMBER
 #define PROTOGEN_X_Y_Z__JSON_NUMBER
 
+#include <limits>
+#include <cstdio>
+#include <cstdlib>
+#include <locale.h>
+
 namespace protogen_X_Y_Z {
 
 template<typename T> class field
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..bdb1311 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -3,6 +3,8 @@
 #ifndef PROTOGEN_X_Y_Z__JSON_STRING
 #define PROTOGEN_X_Y_Z__JSON_STRING
 
+#include <cstdio>
+
 namespace protogen_X_Y_Z {
 
 class string_field
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..47590ac 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -29,6 +29,9 @@
 #include <memory>
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
+#include <cstdlib>
+#include <type_traits>
 
 namespace protogen_X_Y_Z {
 
-- 
2.43.0


From c8909af883c3a4d8b975a70e47b155d065499d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 02/50] fix: serialize to a character buffer from its first
 byte

The output iterator was advanced before the first write, so the first byte
of the buffer was skipped.
---
 source/cpp/protogen.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 47590ac..d09fa17 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -126,24 +126,29 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            put(value);
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+                put(*it);
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0) put(*value++);
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
 
     protected:
         I beg_;
+        void put( char value )
+        {
+            *beg_ = value;
+            ++beg_;
+        }
 };
 
 struct istream
-- 
2.43.0


From 554e1537740fa11dc17a9651792ac791d7fed343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 03/50] fix: report failure when the serialization buffer is
 too small

The output was silently truncated and reported as success.
---
 source/cpp/protogen.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index d09fa17..ce988e3 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -692,9 +692,16 @@ struct message
 
     virtual bool serialize( char *in, size_t len, Parameters *params = nullptr )
     {
-        auto begin = mem_iterator<char>(in, len);
-        iterator_ostream<mem_iterator<char>> os(begin);
-        return serialize(os, params);
+        std::string out;
+        if (!serialize(out, params)) return false;
+        if (out.length() > len)
+        {
+            if (params != nullptr)
+                params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "output buffer is too small", 0, 0);
+            return false;
+        }
+        std::copy(out.begin(), out.end(), in);
+        return true;
     }
 
     virtual bool serialize( std::vector<char> &out, Parameters *params = nullptr ) const
-- 
2.43.0


From ec04ba09776bdf0744c5c331b15279ead34cee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 04/50] fix: do not remove line feeds from the JSON input

A line feed did not separate tokens: '1<LF>2' was read as 12 and a line
feed inside a string disappeared.
---
 source/cpp/protogen.hh | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index ce988e3..de49ea1 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -169,7 +169,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -179,9 +178,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -189,15 +193,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
-- 
2.43.0


From ada4e5430cd245cb3204c7937891290e7cc88c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 05/50] fix: record the position of string tokens

Errors at a string token were reported at 0:0.
---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index de49ea1..21060f9 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -417,7 +417,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 8a8da0c5e6a493d564a388a32da70bc262501249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 06/50] fix: accept escaped ASCII characters such as \u0041

---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 21060f9..8d5e9ee 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -489,6 +489,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint >= 0 && codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From 5ecde54bd2aa534fb0790de02ad60f2830b429af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 07/50] fix: reject unpaired surrogates in JSON strings

A lone lead was silently dropped, and was combined with any later trail.
---
 source/cpp/protogen.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 8d5e9ee..965f72e 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -414,6 +414,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // a UTF-16 lead must be followed by its trail
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -423,6 +426,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -465,6 +470,10 @@ class tokenizer
             }
             int32_t codepoint = (int32_t) strtol(temp, nullptr, 16);
 
+            // only a trail can come after a lead
+            if (lead != 0 && (codepoint < 0xDC00 || codepoint > 0xDFFF))
+                return false;
+
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
             {
-- 
2.43.0


From 0a2eeee3f232742adb9a8de67e5b09fbc5b1ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 08/50] fix: reject malformed JSON numbers

Texts such as '--1', '1-2' or '1.e' were accepted as numbers.
---
 source/cpp/protogen.hh | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 965f72e..2174f90 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -535,7 +535,31 @@ class tokenizer
             return true;
         }
 
-        token parse_number() // TODO ensure number syntax according to RFC-4627 section 2.4
+        // Returns whether the text follows the number syntax of RFC-4627 section 2.4
+        static bool is_number( const std::string &text )
+        {
+            const char *ptr = text.c_str();
+            auto digits = [&ptr]() { const char *start = ptr; while (*ptr >= '0' && *ptr <= '9') ++ptr; return ptr != start; };
+            if (*ptr == '-') ++ptr;
+            if (*ptr == '0')
+                ++ptr;
+            else
+            if (!digits()) return false;
+            if (*ptr == '.')
+            {
+                ++ptr;
+                if (!digits()) return false;
+            }
+            if (*ptr == 'e' || *ptr == 'E')
+            {
+                ++ptr;
+                if (*ptr == '+' || *ptr == '-') ++ptr;
+                if (!digits()) return false;
+            }
+            return *ptr == 0;
+        }
+
+        token parse_number()
         {
             std::string value;
             int line = input_.line();
@@ -551,7 +575,7 @@ class tokenizer
                 else
                     break;
             }
-            return token(token_id::NUMBER, value, line, column);
+            return token(is_number(value) ? token_id::NUMBER : token_id::NONE, value, line, column);
         }
 
         int ignore_array()
-- 
2.43.0


From ff7f8d940b69d52f30ebb906febe6bf351daf71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 09/50] fix: reject trailing commas in ignored values

---
 source/cpp/protogen.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 2174f90..9840ceb 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -583,12 +583,13 @@ class tokenizer
             if (!expect(token_id::ARRS))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
 
-            while (peek().id != token_id::ARRE)
+            if (expect(token_id::ARRE))
+                return PGR_OK;
+            do
             {
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
+            } while (expect(token_id::COMMA));
             if (!expect(token_id::ARRE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
             return PGR_OK;
@@ -599,7 +600,9 @@ class tokenizer
             if (!expect(token_id::OBJS))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
 
-            while (peek().id != token_id::OBJE)
+            if (expect(token_id::OBJE))
+                return PGR_OK;
+            do
             {
                 if (!expect(token_id::STRING))
                     return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
@@ -607,8 +610,7 @@ class tokenizer
                     return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
+            } while (expect(token_id::COMMA));
             if (!expect(token_id::OBJE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
             return PGR_OK;
-- 
2.43.0


From a90960e2445c3f7856a3f948b3a721e85034c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 10/50] fix: limit the nesting of ignored values

A deeply nested value in an unknown field overflowed the stack.
---
 source/cpp/protogen.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 9840ceb..546f011 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -616,7 +616,21 @@ class tokenizer
             return PGR_OK;
         }
 
+        // Maximum nesting of ignored values; a limit is required because the parser is recursive
+        enum { MAX_IGNORE_DEPTH = 1000 };
+        int depth_ = 0;
+
         int ignore_value()
+        {
+            if (depth_ >= MAX_IGNORE_DEPTH)
+                return error(error_code::PGERR_IGNORE_FAILED, "too many nested values");
+            ++depth_;
+            int result = ignore_any();
+            --depth_;
+            return result;
+        }
+
+        int ignore_any()
         {
             switch (peek().id)
             {
-- 
2.43.0


From 68a870644f5ebebc1c284b4825d3ffd55381162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 11/50] fix: report an error when the JSON text is null

Deserialization failed without an error code.
---
 source/cpp/json-array.hh | 1 +
 source/cpp/json.hh       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..87c0214 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -93,6 +93,7 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL) tok.error(protogen_X_Y_Z::PGERR_INVALID_ARRAY, "unexpected null");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..aa44580 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,7 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) tok.error(protogen_X_Y_Z::PGERR_INVALID_OBJECT, "unexpected null"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From 2ac5fa3a8590dc0541f7319aadbd30872099b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 12/50] fix: accept null elements in arrays

The null token was not consumed, so arrays with absent strings (which the
serializer writes as null) could not be read.
---
 source/cpp/json-array.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 87c0214..3728f54 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -44,10 +44,11 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         {
             while (true)
             {
-                typename T::value_type temp;
+                typename T::value_type temp = typename T::value_type();
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
-                if (result == PGR_OK) value.push_back(temp);
+                if (result == PGR_NIL) ctx.tok->next(); // null is an element without value
+                value.push_back(temp);
 
                 if (!ctx.tok->expect(token_id::COMMA))
                 {
-- 
2.43.0


From bbb222490726d8ea1f6d1769095c413f4c1ee4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 13/50] fix: a null string is absent after deserialization

It became a present, empty string.
---
 source/cpp/json-string.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index bdb1311..27c2025 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -161,8 +161,10 @@ struct json<string_field, void>
         std::string temp;
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
-        value.empty(result == PGR_NIL);
-        value = temp;
+        if (result == PGR_NIL)
+            value.clear();
+        else
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From b4ec7696fdaded8af12fd3d548626c6532fb9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 14/50] fix: assigning an absent field clears the target

The old value was kept: the target stayed non-empty (strings) or different
from the source (numbers).
---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 9056bea..5dd5f80 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -25,7 +25,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 27c2025..339c2d5 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -24,7 +24,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From 40134414c0b0cc688dabc543e22174e6fd946b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 15/50] fix: support bytes fields that are not repeated

The base64 code was included only for repeated bytes fields. Otherwise the
generated header did not compile or wrote bytes as an array of numbers.
---
 source/cpp/cppgen.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..6b78f46 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -547,11 +547,10 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
+            else
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From f45edc5846ef5fffa4ea0201b1023b47d941a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 16/50] fix: a repeated bytes field holds any number of byte
 strings

It was generated as a single byte string.
---
 source/cpp/cppgen.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 6b78f46..ca5ab3f 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -142,10 +142,17 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.id == protogen::TYPE_BYTES)
+    {
+        valueType = "std::vector<" + valueType + ">";
+        if (!field.type.repeated)
+            return valueType;
+    }
+
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
-- 
2.43.0


From 84a8ea9c3a4f0de844a90cbda29e8f224259d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 17/50] fix: reject invalid base64 and replace the previous
 bytes

Invalid text was decoded to arbitrary bytes and truncated text was reported
as success. The bytes were appended to the ones the field already had.
---
 source/cpp/json-base64.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..6768f1c 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -66,7 +66,15 @@ struct json< std::vector<uint8_t> >
         size_t k = 0;
         int s[4];
         std::string text = ctx.tok->peek().value;
+        // up to two padding characters at the end and only symbols before them
+        size_t length = text.length();
+        if (length > 0 && text[length - 1] == '=') --length;
+        if (length > 0 && text[length - 1] == '=') --length;
+        size_t invalid = text.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
+        if (text.length() % 4 != 0 || (invalid != std::string::npos && invalid < length))
+            return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
         ctx.tok->next();
+        value.clear();
         const char *ptr = text.c_str();
 
         while (true)
@@ -75,11 +83,7 @@ struct json< std::vector<uint8_t> >
             for (size_t j = 0; j < 4; ++j)
             {
                 int ch = *ptr++;
-                if (ch == 0)
-                {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
-                    return PGR_OK;
-                }
+                if (ch == 0) return PGR_OK;
                 s[j] = b64_int(ch);
             }
             // decode base64 tuple
-- 
2.43.0


From 466ec0e17a986da8b22fade9b799c5f735523124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 18/50] fix: report serialization errors of fields and array
 elements

serialize() returned true and produced broken JSON.
---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..98084bb 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; int r = json<decltype(value.$1$)>::write(ctx, value.$1$); if (r != PGR_OK) return r; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 3728f54..81b2a52 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -66,7 +66,8 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            int result = json<typename T::value_type>::write(ctx, *it);
+            if (result != PGR_OK) return result;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From 10ce896f550ed20fc36a7f36de3b32a905e6a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 19/50] fix: escape every control character in JSON strings

The output was not valid JSON, and strings with NUL could not be read back.
---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 339c2d5..f3513df 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -78,7 +78,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
-- 
2.43.0


From 85391ec826c5e3c3bfd66c30a2fa7316b8516b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 20/50] fix: reject overlong, surrogate and too large UTF-8
 sequences

With ensure_ascii they were written as escapes of other characters.
---
 source/cpp/json-string.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index f3513df..87a2cc0 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -102,7 +102,7 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte2 = value[i + 1];
-                if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
+                if (byte1 >= 0xC2 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
                     write_escaped_utf8(ctx.os, codepoint);
@@ -116,7 +116,8 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte3 = value[i + 2];
-                if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
+                if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80
+                    && !(byte1 == 0xE0 && byte2 < 0xA0) && !(byte1 == 0xED && byte2 > 0x9F)) // neither overlong nor surrogate
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
                     write_escaped_utf8(ctx.os, codepoint);
@@ -130,7 +131,8 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte4 = value[i + 3];
-                if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
+                if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80
+                    && !(byte1 == 0xF0 && byte2 < 0x90) && !(byte1 == 0xF4 && byte2 > 0x8F)) // neither overlong nor above U+10FFFF
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
 
-- 
2.43.0


From 55d09d1d49aa6400abd074507314630e3a421ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 21/50] fix: write floating-point numbers without loss

Everything after the sixth decimal place was lost: 1e-7 became 0.
---
 source/cpp/json-number.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5dd5f80..80604eb 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -84,13 +84,13 @@ std::string number_to_string( const T &value )
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From c3638c13782e3a2dd2d9ab385510cf0ebb4ee3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 22/50] fix: report an error for numbers that JSON cannot
 represent

NaN and infinities were written as 'nan' and 'inf'.
---
 source/cpp/json-number.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 80604eb..607633e 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -103,6 +103,18 @@ std::string number_to_string( const T &value )
     return std::to_string(value);
 }
 
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+bool is_finite_number( const T &value )
+{
+    return std::isfinite(value);
+}
+
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+bool is_finite_number( const T & )
+{
+    return true;
+}
+
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 int equal_number( const T &value1, const T &value2 )
 {
@@ -159,6 +171,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
     }
     static int write( json_context &ctx, const T &value )
     {
+        if (!is_finite_number(value))
+            return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "number is not finite");
         (*ctx.os) << number_to_string(value);
         return PGR_OK;
     }
-- 
2.43.0


From 7d9f33d9b05138d2d860a435bfe14859bfd1202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 23/50] fix: reject numbers that do not fit in the field

Out of range numbers wrapped around, fractions and exponents of integers
were cut off (1e3 was read as 1).
---
 source/cpp/json-number.hh | 67 ++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 607633e..6d3faa9 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -4,6 +4,7 @@
 #define PROTOGEN_X_Y_Z__JSON_NUMBER
 
 #include <limits>
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <locale.h>
@@ -57,24 +58,59 @@ static T string_to_number( const std::string &text )
     return static_cast<T>(value);
 }
 
-template<typename T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+bool read_number( const std::string &text, T &value )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoi64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtol(text.c_str(), nullptr, 10) );
-#endif
+    value = string_to_number<T>(text);
+    return std::isfinite(value);
 }
 
-template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+// Removes the fraction and the exponent from a JSON number. Returns false if the number is not an integer
+// or has more digits than any integer type.
+static inline bool expand_integer( const std::string &text, std::string &output )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoui64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtoul(text.c_str(), nullptr, 10) );
-#endif
+    size_t pos = text.find_first_of("eE");
+    long exponent = (pos == std::string::npos) ? 0 : strtol(text.c_str() + pos + 1, nullptr, 10);
+    exponent = std::max(-1000000000L, std::min(exponent, 1000000000L));
+    output = text.substr(0, pos);
+    pos = output.find('.');
+    if (pos != std::string::npos)
+    {
+        exponent -= (long) (output.length() - pos - 1);
+        output.erase(pos, 1);
+    }
+    if (output.find_first_of("123456789") == std::string::npos)
+    {
+        output = "0";
+        return true;
+    }
+    for (; exponent < 0 && output.back() == '0'; ++exponent)
+        output.pop_back();
+    if (exponent < 0 || exponent > 20) return false;
+    output.append((size_t) exponent, '0');
+    return true;
+}
+
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+bool read_number( const std::string &text, T &value )
+{
+    std::string digits;
+    if (!expand_integer(text, digits)) return false;
+
+    errno = 0;
+    if (digits[0] == '-')
+    {
+        long long temp = strtoll(digits.c_str(), nullptr, 10);
+        if (errno == ERANGE || temp < static_cast<long long>(std::numeric_limits<T>::min())) return false;
+        value = static_cast<T>(temp);
+    }
+    else
+    {
+        unsigned long long temp = strtoull(digits.c_str(), nullptr, 10);
+        if (errno == ERANGE || temp > static_cast<unsigned long long>(std::numeric_limits<T>::max())) return false;
+        value = static_cast<T>(temp);
+    }
+    return true;
 }
 
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
@@ -165,7 +201,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
         if (tt.id == token_id::NIL) return PGR_NIL;
         if (tt.id != token_id::NUMBER)
             return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid numeric value");
-        value = string_to_number<T>(tt.value);
+        if (!read_number<T>(tt.value, value))
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "number does not fit in the field");
         ctx.tok->next();
         return PGR_OK;
     }
-- 
2.43.0


From 499c59387b7bb00550000216dcc5daa3fa30f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 24/50] fix: obfuscated names may contain zero bytes

Names like 'color' or 'error' (or any with a character equal to the mask)
were cut off, so the field was written with a wrong name and never read.
---
 source/cpp/code.txt  | 2 +-
 source/cpp/cppgen.cc | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index 98084bb..cb73344 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -230,7 +230,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__INDEX__ITEM
-            {"$1$", $2$},
+            {$1$, $2$},
 ------
 
 --- CODE_JSON__INDEX__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index ca5ab3f..12bdaf0 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -222,11 +222,14 @@ static inline std::string obfuscate( const std::string &value )
 {
     uint8_t mask = rol<uint8_t>(0x93U, value.length() % 8);
 	std::stringstream result;
+	// explicit length because the obfuscated text may contain zeros
+	result << "std::string(\"";
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
         result << std::hex << ((uint8_t) value[i] ^ mask);
     }
+	result << "\", " << std::dec << value.length() << ')';
 	return result.str();
 }
 
@@ -309,7 +312,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = Printer::format("reveal(\"$1$\")", obfuscate(label));
+            label = Printer::format("reveal($1$)", obfuscate(label));
         else
             label = Printer::format("\"$1$\"", label);
 
@@ -423,6 +426,8 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
             label = obfuscate(label);
+        else
+            label = Printer::format("\"$1$\"", label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 1e664b4c45e8665a43e7568f111a5538de5431f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 25/50] fix: deserialize_array from a character buffer did not
 compile

---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 81b2a52..e67d94e 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -110,9 +110,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From 33515a2af2832a7fc8c7ba3471e745157099939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 26/50] fix: honour ensure_ascii in field names

---
 source/cpp/code.txt  |  4 ++++
 source/cpp/cppgen.cc | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index cb73344..2edc43d 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -105,6 +105,10 @@ template<> struct json<$2$>
         if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; int r = json<decltype(value.$1$)>::write(ctx, value.$1$); if (r != PGR_OK) return r; f=false; }
 ------
 
+--- CODE_JSON__WRITE__ITEM_ESCAPED
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { if (!f) (*ctx.os) << ','; int r = json<std::string>::write(ctx, $2$); if (r != PGR_OK) return r; (*ctx.os) << ':'; r = json<decltype(value.$1$)>::write(ctx, value.$1$); if (r != PGR_OK) return r; f=false; }
+------
+
 --- CODE_JSON__WRITE__FOOTER
         (*ctx.os) << '}';
         return PGR_OK;
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 12bdaf0..6a057e0 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -269,6 +269,13 @@ static std::string get_json_name( const Field &field )
     return name;
 }
 
+static bool is_ascii( const std::string &text )
+{
+    for (auto c : text)
+        if ((uint8_t) c > 0x7F) return false;
+    return true;
+}
+
 static void generate_function__read_field( GeneratorContext &ctx, const Message &message, const std::string &typeName,
     bool is_persistent )
 {
@@ -316,7 +323,11 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
         else
             label = Printer::format("\"$1$\"", label);
 
-        ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
+        // names that are not ASCII may need to be escaped
+        if (!ctx.number_names && !is_ascii(name))
+            ctx.printer(CODE_JSON__WRITE__ITEM_ESCAPED, field.name, label);
+        else
+            ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
         ++i;
     }
 
@@ -560,6 +571,9 @@ static void generateInclusions( GeneratorContext &ctx )
         {
             if (field.type.repeated)
                 has_array = true;
+            // names that are not ASCII are written as strings
+            if (!is_transient(field) && !is_ascii(get_json_name(field)))
+                has_string = true;
             if (field.type.id == protogen::TYPE_BYTES)
                 has_base64 = true;
             else
-- 
2.43.0


From c23e550452c2b533ec5658831904eea1a4bf2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 27/50] fix: round float values once

The text was rounded to double and then to float, which does not always
give the nearest float.
---
 source/cpp/json-number.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 6d3faa9..e4eb9a9 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -38,24 +38,26 @@ template<typename T> class field
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 static T string_to_number( const std::string &text )
 {
-    double value;
+    T value;
+    // a detour through 'double' would round 'float' values twice
+    const bool is_float = std::is_same<T, float>::value;
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return 0;
-    value = _strtod_l(text.c_str(), nullptr, loc);
+    value = is_float ? (T) _strtof_l(text.c_str(), nullptr, loc) : (T) _strtod_l(text.c_str(), nullptr, loc);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return 0;
 #ifdef __USE_GNU
-    value = strtod_l(text.c_str(), nullptr, loc);
+    value = is_float ? (T) strtof_l(text.c_str(), nullptr, loc) : (T) strtod_l(text.c_str(), nullptr, loc);
 #else
     locale_t old = uselocale(loc);
     if (old == 0) return 0;
-    value = strtod(text.c_str(), nullptr);
+    value = is_float ? (T) strtof(text.c_str(), nullptr) : (T) strtod(text.c_str(), nullptr);
     uselocale(old);
 #endif
 #endif
-    return static_cast<T>(value);
+    return value;
 }
 
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
-- 
2.43.0


From 97e749bcffd6266458f2fb0dbf6a4f2e8b4766ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 28/50] fix: compare string fields by their presence

A text stored through the reference given by 'operator*' is present for
'empty' and for the serialization, but was absent for the comparison.
---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 87a2cc0..d991ce9 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -27,12 +27,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0


From fe91c5bc1e71b8e1247c62ee575b00ddd3c635b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 29/50] fix: report failure when the output stream fails

---
 source/cpp/protogen.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 546f011..51a34b1 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -735,7 +735,14 @@ struct message
         typedef std::ostream_iterator<char> ittype;
         ittype begin(out);
         iterator_ostream<ittype> os(begin);
-        return serialize(os, params);
+        if (!serialize(os, params)) return false;
+        if (out.fail())
+        {
+            if (params != nullptr)
+                params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "unable to write to the output stream", 0, 0);
+            return false;
+        }
+        return true;
     }
 
     virtual bool serialize( char *in, size_t len, Parameters *params = nullptr )
-- 
2.43.0


From ff23f002bdaa156d43dfd0702c8ec0a2b5ba120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 30/50] fix: comments and strings end at the end of the schema

A comment or string cut short by the end of the file never finished, and an
unterminated string was taken as the end of the schema.
---
 source/proto3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..5a99417 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) != '\n' && cur >= 0) temp.value += (char) cur;
                 return temp;
             }
             else
@@ -473,7 +473,7 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0) throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From 20b906532ea806555da3558ce908b84ce821455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 31/50] fix: reject stray slashes and unterminated comments

---
 source/proto3.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 5a99417..ed84b80 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line, int column )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From 731ff3d5356e911fd34657a5d1e37193d9666797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 32/50] fix: check the whole range of field numbers

Numbers that do not fit in 'int' wrapped around, only the ends of the reserved
range were rejected and the largest valid number was not accepted.
---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index ed84b80..608b913 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -659,10 +659,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || (index >= 19000 && index <= 19999))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From 763fda3fc322104386dc64d4cbaf8d73041b2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 33/50] fix: reject messages without the closing brace

---
 source/proto3.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 608b913..1378507 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -701,10 +701,10 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-            while (ctx.tokens.next().code != TOKEN_EOF)
+            while (ctx.tokens.next().code != TOKEN_END)
             {
-                if (ctx.tokens.current.code == TOKEN_END)
-                    break;
+                if (ctx.tokens.current.code == TOKEN_EOF)
+                    throw exception("Expected '}'", CURRENT_TOKEN_POSITION);
                 if (ctx.tokens.current.code == TOKEN_OPTION)
                     parseStandardOption(ctx, message->options);
                 else
-- 
2.43.0


From 91ab063bfe81c28c2bc2d1c63faa3cafd8b92dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 34/50] fix: reject repeated field and message names

---
 source/proto3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 1378507..5a3b6ad 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -680,10 +680,14 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code != TOKEN_SCOLON)
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
-    // check for repeated field indices
+    // check for repeated field indices and names
     for (auto it = message.fields.begin(); it != message.fields.end(); it++)
+    {
         if (it->index == field.index)
             throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+        if (it->name == field.name)
+            throw exception("Field '" + it->name + "' is already defined", CURRENT_TOKEN_POSITION);
+    }
 
     message.fields.push_back(field);
 }
@@ -698,6 +702,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Message '" + message->qualifiedName() + "' is already defined", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-- 
2.43.0


From 51abc5e0a2c4a8788bab8086f9cc23911ae39cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 35/50] fix: require commas between field options

---
 source/proto3.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 5a3b6ad..ac0b78a 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -561,15 +561,12 @@ static OptionEntry parseOption( ProtoContext &ctx )
 
 static void parseFieldOptions( ProtoContext &ctx, OptionMap &entries )
 {
-    while (true)
+    do
     {
-        if (ctx.tokens.next().code == TOKEN_RBRACKET) break;
-        ctx.tokens.unget();
         OptionEntry option = parseOption(ctx);
-        if (ctx.tokens.next().code != TOKEN_COMMA) ctx.tokens.unget();
         entries[option.name] = option;
-    }
-    // give back the TOKEN_RBRACKET
+    } while (ctx.tokens.next().code == TOKEN_COMMA);
+    // give back the token after the last option
     ctx.tokens.unget();
 }
 
-- 
2.43.0


From 53c08a068e072e9e47adc69ab4bb8668bfca3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 36/50] fix: find message types by qualified name

The name of the current package was always added to the type name, so a type
written with its package was never found.
---
 source/proto3.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index ac0b78a..9e20907 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -805,9 +805,21 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
             if (field.type.id != TYPE_MESSAGE || field.type.ref != nullptr)
                 continue;
 
-            field.type.ref = findMessage(ctx, field.type.qname);
+            // the name is searched in the package of the message and then in the enclosing ones
+            std::string scope = message->package;
+            std::string name = scope.empty() ? field.type.qname : field.type.qname.substr(scope.length() + 1);
+            std::string qname = field.type.qname;
+            field.type.ref = findMessage(ctx, qname);
+            while (field.type.ref == nullptr && !scope.empty())
+            {
+                size_t pos = scope.rfind('.');
+                scope.erase(pos == std::string::npos ? 0 : pos);
+                qname = scope.empty() ? name : scope + '.' + name;
+                field.type.ref = findMessage(ctx, qname);
+            }
             if (field.type.ref == nullptr)
                 throw exception("Unable to find message '" + field.type.qname + "'");
+            field.type.qname = qname;
         }
     }
 }
-- 
2.43.0


From d6bf88750484df481bc6b158060778aaf05fd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 37/50] fix: report the position of the invalid language
 version

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 9e20907..a974416 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -740,7 +740,7 @@ static void parseSyntax( ProtoContext &ctx )
     if (tt.code == TOKEN_STRING && ctx.tokens.next().code == TOKEN_SCOLON)
     {
         if (tt.value != "proto3")
-            throw exception("Invalid language version", CURRENT_TOKEN_POSITION);
+            throw exception("Invalid language version", TOKEN_POSITION(tt));
     }
     else
         throw exception("Invalid syntax", CURRENT_TOKEN_POSITION);
-- 
2.43.0


From 33f4857c6008c9f4ccc2ba74dd4256f5d46793b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 38/50] fix: reject backslashes and control characters in field
 names

They were copied to string literals of the generated code and to the JSON.
---
 source/cpp/cppgen.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 6a057e0..7bcb49d 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -264,8 +264,8 @@ static std::string get_json_name( const Field &field )
 {
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
     for (auto c : name)
-        if (c == '\'' || c == '"')
-            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+        if (c == '\'' || c == '"' || c == '\\' || (uint8_t) c < 0x20)
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes, backslashes or control characters", 1, 1);
     return name;
 }
 
-- 
2.43.0


From 3cf10f43e2e7c7da2623faa1310928cfd1f24a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 39/50] fix: reject fields that share a name in the JSON

---
 source/cpp/cppgen.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 7bcb49d..f258a54 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -491,6 +491,15 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
         throw protogen::exception("more than " + std::to_string(protogen::CppGenerator::MAX_FIELDS) +
             " fields in message '" + message.name + "'");
 
+    std::unordered_set<std::string> names;
+    for (auto &field : message.fields)
+    {
+        if (is_transient(field) || ctx.number_names) continue;
+        auto name = get_json_name(field);
+        if (!names.insert(name).second)
+            throw protogen::exception("more than one field named '" + name + "' in message '" + message.name + "'");
+    }
+
     ctx.printer("\n//\n// $1$\n//\n", message.name);
 
     // create the model structure
-- 
2.43.0


From b7632934ee8e4e963867e94b7c72c8e5b89b074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 40/50] fix: report errors while reading the schema

The part already read was taken as the whole schema, e.g. a directory was
taken as an empty one.
---
 source/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..70235b5 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -71,6 +71,7 @@ int main( int argc, char **argv )
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
-- 
2.43.0


From 43a66d8c85f3624ae26b2e887ce9a3de07a980d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 41/50] fix: write the header only when it is complete and
 report write errors

An invalid schema truncated the output file or left part of the header in it,
and an error such as a full device was not noticed.
---
 source/main.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index 70235b5..7cb104e 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -18,6 +18,7 @@
 #include <protogen/protogen.hh>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <limits.h>
 #include <stdlib.h>
 #include <algorithm>
@@ -49,22 +50,15 @@ int main( int argc, char **argv )
     std::ifstream input(argv[1]);
     if (!input.good()) main_error(std::string("Unable to open '") + argv[1] + "'");
 
-    std::ostream *output = &std::cout;
-    std::ofstream out;
-    if (argc == 3)
-    {
-        out.open(argv[2], std::ios_base::ate);
-        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        output = &out;
-    }
-
     int result = 0;
+    // nothing is written until the whole header is generated
+    std::stringstream code;
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
 	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) return 1;
 	#else
 	char fullPath[PATH_MAX] = { 0 };
-	if (realpath(argv[1], fullPath) == nullptr) return 1;
+	if (realpath(argv[1], fullPath) == nullptr) main_error(std::string("Unable to find '") + argv[1] + "'");
 	#endif
 
     protogen::Proto3 proto;
@@ -80,14 +74,28 @@ int main( int argc, char **argv )
         }
 
         protogen::CppGenerator gen;
-        gen.generate(proto, *output);
+        gen.generate(proto, code);
     } catch (protogen::exception &ex)
     {
         std::cerr << fullPath << ':' << ex.line << ':' << ex.column << ": error: " << ex.cause() << std::endl;
         result = 1;
     }
     input.close();
-    if (argc == 3) out.close();
+    if (result != 0) return result;
+
+    if (argc == 3)
+    {
+        std::ofstream out(argv[2]);
+        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
+        out << code.str();
+        out.close();
+        if (!out.good()) main_error(std::string("Unable to write '") + argv[2] + "'");
+    }
+    else
+    {
+        std::cout << code.str() << std::flush;
+        if (!std::cout.good()) main_error("Unable to write the standard output");
+    }
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From b315feda3df8a52f427220bd6f278644a32ac851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 42/50] fix: do not overflow the stack with long chains of
 messages

---
 source/cpp/cppgen.cc | 46 ++++++++++++++++++++++++--------------------
 source/main.cc       |  4 ++++
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index f258a54..475e049 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -530,38 +530,42 @@ static std::string makeGuard( const std::string &fileName )
 typedef std::vector<std::shared_ptr<protogen::Message>> MessageList;
 typedef std::unordered_set<std::shared_ptr<protogen::Message>> MessageSet;
 
-static bool contains( const MessageList &items, const std::shared_ptr<protogen::Message> &message )
+static void sort( MessageList &output, MessageSet &done, std::shared_ptr<protogen::Message> first )
 {
-    for (const auto &current : items)
-        if (current == message)
-            return true;
-    return false;
-}
-
-static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
-{
-    if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'");
-    if (contains(output, message))
+    if (!done.insert(first).second)
         return; // already processed
 
-    pending.insert(message);
-    for (auto &field : message->fields)
+    // messages being processed and their next field; no recursion because there is no limit to the references
+    std::vector<std::pair<std::shared_ptr<protogen::Message>, size_t>> stack{{first, 0}};
+    MessageSet pending{first};
+    while (!stack.empty())
     {
-        if (field.type.ref != nullptr && !contains(output, field.type.ref))
-            sort(output, pending, field.type.ref);
+        auto message = stack.back().first;
+        if (stack.back().second < message->fields.size())
+        {
+            auto &ref = message->fields[stack.back().second++].type.ref;
+            if (ref == nullptr) continue;
+            if (pending.count(ref) > 0)
+                throw exception("circular reference with '" + ref->name + "'");
+            if (!done.insert(ref).second) continue;
+            pending.insert(ref);
+            stack.push_back({ref, 0});
+        }
+        else
+        {
+            pending.erase(message);
+            output.push_back(message);
+            stack.pop_back();
+        }
     }
-    pending.erase(message);
-
-    output.push_back(message);
 }
 
 static void sort( GeneratorContext &ctx )
 {
     std::vector<std::shared_ptr<protogen::Message>> messages;
-    std::unordered_set<std::shared_ptr<protogen::Message>> pending;
+    std::unordered_set<std::shared_ptr<protogen::Message>> done;
     for (auto &message : ctx.root.messages)
-        sort(messages, pending, message);
+        sort(messages, done, message);
 
     ctx.root.messages.swap(messages);
 }
diff --git a/source/main.cc b/source/main.cc
index 7cb104e..f66af07 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -81,6 +81,10 @@ int main( int argc, char **argv )
         result = 1;
     }
     input.close();
+    // avoid the recursive release of long chains of references
+    for (auto &message : proto.messages)
+        for (auto &field : message->fields)
+            field.type.ref.reset();
     if (result != 0) return result;
 
     if (argc == 3)
-- 
2.43.0


From 0eab412d1eda119fd2ee382ee376e38698a411e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 43/50] fix: do not search all messages for each reference

It took minutes to process large schemas.
---
 source/proto3.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index a974416..f6bf25d 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -490,10 +490,13 @@ struct Context
     Proto3 &tree;
     InputStream<T> &is;
     std::string package;
+    std::unordered_map<std::string, std::shared_ptr<Message>> messages; // by qualified name
 
     Context( Tokenizer<T> &tokenizer, Proto3 &tree, InputStream<T> &is ) :
         tokens(tokenizer), tree(tree), is(is)
     {
+        for (auto &message : tree.messages)
+            messages[message->qualifiedName()] = message;
     }
 };
 
@@ -587,9 +590,8 @@ static void parseStandardOption( ProtoContext &ctx, OptionMap &entries )
 
 static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::string &name )
 {
-    for (auto it = ctx.tree.messages.begin(); it != ctx.tree.messages.end(); ++it)
-        if ((*it)->qualifiedName() == name) return *it;
-    return nullptr;
+    auto it = ctx.messages.find(name);
+    return (it == ctx.messages.end()) ? nullptr : it->second;
 }
 
 
@@ -714,6 +716,7 @@ static void parseMessage( ProtoContext &ctx )
                     parseField(ctx, *message);
             }
             ctx.tree.messages.push_back(message);
+            ctx.messages[message->qualifiedName()] = message;
             return;
         }
     }
-- 
2.43.0


From 0d3e73496c98e8ce6ecaea30c4b61bb3c7c57576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 44/50] fix: a number that cannot be read leaves the field as
 it was

---
 source/cpp/json-number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index e4eb9a9..ed9b284 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -174,7 +174,7 @@ struct json<field<T>, typename std::enable_if<std::is_arithmetic<T>::value>::typ
         T temp;
         json<T>::clear(temp);
         int result = json<T>::read(ctx, temp);
-        if (result != PGR_NIL)
+        if (result == PGR_OK)
             value = temp;
         return result;
     }
-- 
2.43.0


From b302fd2d04e1f05751831420b2f60267eb3cea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 45/50] fix: a string that cannot be read leaves the field as
 it was

---
 source/cpp/json-string.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index d991ce9..9516493 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -170,6 +170,7 @@ struct json<string_field, void>
         if (result == PGR_NIL)
             value.clear();
         else
+        if (result == PGR_OK)
             value = temp;
         return result;
     }
-- 
2.43.0


From 677d3c18cddc0de4b3d7f2c138a223d25ee23851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:41 +0000
Subject: [PATCH 46/50] fix: the flags of the stream are given back when it
 throws

---
 source/cpp/protogen.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 51a34b1..d2b57c7 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -692,14 +692,18 @@ struct message
 
     virtual bool deserialize( std::istream &in, Parameters *params = nullptr )
     {
-        bool skip = in.flags() & std::ios_base::skipws;
+        // gives the flags back even if the stream throws
+        struct flags_guard
+        {
+            std::istream &in;
+            std::ios_base::fmtflags flags;
+            ~flags_guard() { in.flags(flags); }
+        } guard = { in, in.flags() };
         std::noskipws(in);
         std::istream_iterator<char> end;
         std::istream_iterator<char> begin(in);
         iterator_istream<std::istream_iterator<char>> is(begin, end);
-        bool result = deserialize(is, params);
-        if (skip) std::skipws(in);
-        return result;
+        return deserialize(is, params);
     }
 
     virtual bool deserialize( const std::string &in, Parameters *params = nullptr )
-- 
2.43.0


From 0a403908207a0e165113e4007650800b0cff1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:23 +0000
Subject: [PATCH 47/50] fix: a pending field width of a standard stream padded
 the JSON text

---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index d2b57c7..39960eb 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -736,6 +736,7 @@ struct message
 
     virtual bool serialize( std::ostream &out, Parameters *params = nullptr ) const
     {
+        out.width(0); // a pending field width would pad the first character
         typedef std::ostream_iterator<char> ittype;
         ittype begin(out);
         iterator_ostream<ittype> os(begin);
-- 
2.43.0


From 4c85d069c8e185730d7f96fbf0fd31da7c4d27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:42 +0000
Subject: [PATCH 48/50] fix: question marks in JSON names could form trigraphs
 in the generated literals

---
 source/cpp/cppgen.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 475e049..157d7a8 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -269,6 +269,18 @@ static std::string get_json_name( const Field &field )
     return name;
 }
 
+// Returns the string literal of a JSON name, without trigraphs
+static std::string literal( const std::string &text )
+{
+    std::string output = "\"";
+    for (auto c : text)
+    {
+        if (c == '?') output += '\\';
+        output += c;
+    }
+    return output + '"';
+}
+
 static bool is_ascii( const std::string &text )
 {
     for (auto c : text)
@@ -321,7 +333,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = Printer::format("reveal($1$)", obfuscate(label));
         else
-            label = Printer::format("\"$1$\"", label);
+            label = literal(label);
 
         // names that are not ASCII may need to be escaped
         if (!ctx.number_names && !is_ascii(name))
@@ -438,7 +450,7 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = obfuscate(label);
         else
-            label = Printer::format("\"$1$\"", label);
+            label = literal(label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 8659825df54cd64aa7efd3a8182969ec68e503d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:55 +0000
Subject: [PATCH 49/50] fix: headers of different schemas could have the same
 include guard

---
 source/cpp/cppgen.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 157d7a8..2119a82 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -525,16 +525,26 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
 
 static std::string makeGuard( const std::string &fileName )
 {
+    // every path has its own guard: bytes that macro names cannot have are written in hexadecimal
+    static const char *DIGITS = "0123456789ABCDEF";
     std::string out = "GUARD_";
     for (auto it = fileName.begin(); it != fileName.end(); ++it)
     {
         if ( (*it >= 'A' && *it <= 'Z') ||
              (*it >= 'a' && *it <= 'z') ||
-             (*it >= '0' && *it <= '9') ||
-             *it == '_')
+             (*it >= '0' && *it <= '9') )
             out += *it;
         else
+        {
             out += '_';
+            if (*it == '_')
+                out += '_';
+            else
+            {
+                out += DIGITS[(uint8_t) *it >> 4];
+                out += DIGITS[(uint8_t) *it & 0x0F];
+            }
+        }
     }
     return out;
 }
-- 
2.43.0


From 4ed431c77543b147d40b16588d03210e8fbca695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:29 +0000
Subject: [PATCH 50/50] fix: a line break in the path of a schema made the
 generated header invalid

---
 source/cpp/cppgen.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 2119a82..ae88ce4 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -638,7 +638,10 @@ static void generateInclusions( GeneratorContext &ctx )
 static void generateModel( GeneratorContext &ctx )
 {
     std::string guard = makeGuard(ctx.root.fileName);
-    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, ctx.root.fileName, guard);
+    // a path with line breaks does not fit in the comment
+    std::string source = ctx.root.fileName;
+    std::replace_if(source.begin(), source.end(), [](char c) { return (uint8_t) c < 0x20; }, '?');
+    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, source, guard);
 
     sort(ctx);
 
-- 
2.43.0

