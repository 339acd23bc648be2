From 54ab2249660600dc1987b832069c7298fdffb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 01/26] fix: stop reading a map when fetching the next token
 fails

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..68ef32d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9741,6 +9741,8 @@ struct TypeHandlerMap
       if (error != JS::Error::NoError)
         return error;
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From b9186eb071287d8a12cc531360e19ed75e03e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 02/26] fix: record the element count of a completely filled
 ArrayVariableContent

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 68ef32d..6098981 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10114,6 +10114,7 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       return JS::Error::ExpectedArrayStart;
 
     context.nextToken();
+    to_type.size = COUNT;
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
-- 
2.43.0


From c8a43e16dd4aedb726ef93c33e1a516e4cdc42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 03/26] fix: do not skip past an escaped first character in the
 vectorised string scan

---
 include/json_struct/json_struct.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6098981..d108312 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -448,6 +448,13 @@ inline size_t findStringEndSIMD(const char *JSON_STRUCT_RESTRICT data, size_t le
   const __m128i quote = _mm_set1_epi8('"');
   const __m128i backslash = _mm_set1_epi8('\\');
 
+  // An escape carried over from the previous buffer applies to the first character only
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   while (current + 16 <= end)
   {
     __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(current));
@@ -537,6 +544,13 @@ inline size_t findStringEndNEON(const char *JSON_STRUCT_RESTRICT data, size_t le
   const uint8x16_t quote = vdupq_n_u8('"');
   const uint8x16_t backslash = vdupq_n_u8('\\');
 
+  // An escape carried over from the previous buffer applies to the first character only
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   while (current + 16 <= end)
   {
     uint8x16_t chunk = vld1q_u8(reinterpret_cast<const uint8_t *>(current));
@@ -1143,6 +1157,13 @@ inline size_t findStringEndAVX2(const char *JSON_STRUCT_RESTRICT data, size_t le
   const __m256i quote = _mm256_set1_epi8('"');
   const __m256i backslash = _mm256_set1_epi8('\\');
 
+  // An escape carried over from the previous buffer applies to the first character only
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   while (current + 32 <= end)
   {
     __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(current));
-- 
2.43.0


From e597e4d3a8f8f475968a9795e7e20206ab539209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 04/26] fix: report failures when casting a Map to a type

---
 include/json_struct/json_struct.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d108312..c5eac80 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9904,9 +9904,16 @@ struct Map
   template <typename T>
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
+    if (tokens.data.empty())
+    {
+      parseContext.error = JS::Error::ExpectedDataToken;
+      return parseContext.error;
+    }
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() != JS::Error::NoError)
+      return parseContext.error;
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -9914,8 +9921,10 @@ struct Map
   {
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() != JS::Error::NoError)
+      return parseContext.error;
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From f1c9128bf9d5517b6c2734f5231d8ffaa25e5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 05/26] fix: reject unquoted array values unless ascii types
 are allowed

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c5eac80..f25df80 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2741,6 +2741,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       expecting_prop_or_anonymous_data = false;
       if (token_state == InTokenState::FindingName)
       {
+        if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
+          return Error::IllegalDataValue;
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
         return Error::NoError;
       }
-- 
2.43.0


From c3b57f3214953eadb8f0446ae92c2e8d44e206fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 06/26] fix: report stray punctuation before a value as an
 illegal character

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f25df80..a77b7a1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2275,7 +2275,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0


From 051717c19d7adb7437348886d99cec09c70cfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 07/26] fix: do not divide by zero or lose digits of long
 numbers

---
 include/json_struct/json_struct.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a77b7a1..5301b40 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7927,6 +7927,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
   int desimal_position = -1;
+  int uncounted_digits = 0;
   bool increase_significand = true;
 
   parsedString.negative = false;
@@ -7964,24 +7965,32 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
       bool keep_digit = NoDigitCount;
       if (!keep_digit)
         keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      if (!NoDigitCount && c == '0' && parsedString.significand == 0)
+      {
+        // Leading zeros are not significant, but after the decimal point they scale the number
+        if (desimal_position >= 0)
+          uncounted_digits--;
+      }
+      else if (keep_digit)
       {
         parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
         parsedString.significand_digit_count++;
       }
-      else if (increase_significand && parsedString.significand_digit_count < 20)
+      else
       {
-        increase_significand = false;
+        bool digit_added = false;
         uint64_t digit = uint64_t(c) - '0';
         static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
                       "When NoDigitCount is used the significand type has to be uint64_t");
-        auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
-
-        if (biggest_multiplier >= 10)
+        if (increase_significand && parsedString.significand <= (std::numeric_limits<uint64_t>::max() - digit) / 10)
         {
           parsedString.significand = parsedString.significand * uint64_t(10) + digit;
           parsedString.significand_digit_count++;
+          digit_added = true;
         }
+        increase_significand = false;
+        if (!digit_added && desimal_position < 0)
+          uncounted_digits++;
       }
     }
     current++;
@@ -7989,9 +7998,9 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
     if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
+      parsedString.exp = desimal_position - parsedString.significand_digit_count + uncounted_digits;
     else
-      parsedString.exp = 0;
+      parsedString.exp = uncounted_digits;
     return parse_string_error::ok;
   }
   current++;
@@ -8033,9 +8042,9 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
     exponent = -exponent;
 
   if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
+    parsedString.exp = desimal_position - parsedString.significand_digit_count + uncounted_digits + exponent;
   else
-    parsedString.exp = exponent;
+    parsedString.exp = uncounted_digits + exponent;
   return parse_string_error::ok;
 }
 
-- 
2.43.0


From ffacab6468fae1f3249518693db809848b52a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 08/26] fix: do not wrap the serializer depth after 255 levels

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5301b40..c540ba6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1504,7 +1504,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1516,7 +1516,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3137,7 +3137,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3175,7 +3175,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From 571535c716f307c7947f6e18b27c9b27dae028f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 09/26] fix: report a value that cannot be stored in a Map

---
 include/json_struct/json_struct.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c540ba6..7751753 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9993,7 +9993,6 @@ struct Map
   template <typename T>
   JS::Error setValue(const std::string &name, JS::ParseContext &parseContext, const T &value)
   {
-    (void)parseContext;
     if (tokens.data.empty())
     {
       tokens.data.reserve(10);
@@ -10073,6 +10072,11 @@ struct Map
     serializeContext.flush();
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
+    if (pc.error != JS::Error::NoError)
+    {
+      parseContext.error = pc.error;
+      return pc.error;
+    }
     auto new_meta = metaForTokens(new_tokens);
 
     json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
-- 
2.43.0


From 2e080a0ca72ed534401dbe1f11c874eee70c495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 10/26] fix: escape all control characters in strings

---
 include/json_struct/json_struct.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7751753..1b22820 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6000,7 +6000,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6009,7 +6009,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6026,7 +6026,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6043,7 +6043,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6095,9 +6095,15 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
       buffer.append("\\\\", 2);
       break;
     default:
-      buffer.push_back(cur);
+    {
+      static const char hex[] = "0123456789abcdef";
+      const unsigned char c = static_cast<unsigned char>(cur);
+      buffer.append("\\u00", 4);
+      buffer.push_back(hex[c >> 4]);
+      buffer.push_back(hex[c & 0xf]);
       break;
     }
+    }
     i++;
   }
   if (buffer.size())
-- 
2.43.0


From 04c81a0c4bc65d865f6a070e9566ea5cd3347a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 11/26] fix: escape the keys of maps

---
 include/json_struct/json_struct.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1b22820..ffed758 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9793,7 +9793,10 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      const DataRef key(it->first);
+      std::string escaped_key;
+      const std::string unescaped_key(key.data, key.size);
+      token.name = Internal::handle_json_escapes_out(unescaped_key, escaped_key);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From a227b192c589f57e2f72d57614f155c9d3439ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 12/26] fix: reject unnamed values and missing values in
 objects

---
 include/json_struct/json_struct.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ffed758..e124621 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2706,6 +2706,10 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (!container_stack.empty() && container_stack.back() == Type::ObjectStart)
+          {
+            return Error::ExpectedPropertyName;
+          }
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
@@ -2800,6 +2804,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
         type = intermediate_token.data_type;
       }
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       tmp_token.value = data;
       tmp_token.value_type = Internal::getType(type, tmp_token.value.data, tmp_token.value.size);
 
-- 
2.43.0


From f968098b9c9cd18352da265abca6b6a83ca8378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:31 +0000
Subject: [PATCH 13/26] fix: keep an array element whose delimiter arrives in a
 later buffer

The element, or the name of a member, was dropped from the token when the
buffer ended between it and its delimiter, and its kind was not checked.
---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e124621..9096416 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2743,6 +2743,11 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       cursor_index += diff;
       resetForNewValue();
       expecting_prop_or_anonymous_data = false;
+      if (intermediate_token.active)
+      {
+        tmp_token.name = DataRef(intermediate_token.name);
+        tmp_token.name_type = Internal::getType(intermediate_token.name_type, tmp_token.name.data, tmp_token.name.size);
+      }
       if (token_state == InTokenState::FindingName)
       {
         if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
-- 
2.43.0


From 30ef52b3edc714ba396b18f084d98052ceb78e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:31 +0000
Subject: [PATCH 14/26] fix: continue a comment that spans several buffers

A comment cut by the end of a buffer was forgotten, and its remaining text
was read as JSON.
---
 include/json_struct/json_struct.h | 68 +++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9096416..a239c4a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1425,6 +1425,13 @@ private:
     FoundEnd
   };
 
+  enum class CommentState : unsigned char
+  {
+    None,
+    AfterSlash,
+    InComment
+  };
+
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1434,6 +1441,7 @@ private:
   Error findDelimiter(const DataRef &json_data, size_t *chars_ahead);
   Error findTokenEnd(const DataRef &json_data, size_t *chars_ahead);
   Error skipComment(const DataRef &json_data, size_t *chars_ahead);
+  Error resumeComment(const DataRef &json_data);
   void requestMoreData();
   void releaseFirstDataRef();
   Error populateFromDataRef(DataRef &data, Type &type, const DataRef &json_data);
@@ -1443,6 +1451,7 @@ private:
   InTokenState token_state = InTokenState::FindingName;
   InPropertyState property_state = InPropertyState::NoStartFound;
   Type property_type = Type::Error;
+  CommentState comment_state = CommentState::None;
   bool is_escaped;
   bool allow_ascii_properties : 1;
   bool allow_new_lines : 1;
@@ -1931,6 +1940,7 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
+  comment_state = CommentState::None;
   resetForNewValue();
 }
 
@@ -2219,16 +2229,15 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
     const char c = json_data.data[current_pos];
     unsigned char lc = Internal::lookup()[(unsigned char)c];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 < json_data.size &&
-                             json_data.data[current_pos + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' &&
+                             (current_pos + 1 == json_data.size || json_data.data[current_pos + 1] == '/')))
     {
-      cursor_index = current_pos + 2;
-      size_t comment_skip;
-      Error comment_error = skipComment(json_data, &comment_skip);
+      cursor_index = current_pos + 1;
+      comment_state = CommentState::AfterSlash;
+      Error comment_error = resumeComment(json_data);
       if (comment_error != Error::NoError)
         return comment_error;
 
-      cursor_index += comment_skip;
       current_pos = cursor_index - 1;
       continue;
     }
@@ -2318,15 +2327,15 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   {
     const char c = json_data.data[end];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' &&
+                             (end + 1 == json_data.size || json_data.data[end + 1] == '/')))
     {
-      cursor_index = end + 2;
-      size_t comment_skip;
-      Error comment_error = skipComment(json_data, &comment_skip);
+      cursor_index = end + 1;
+      comment_state = CommentState::AfterSlash;
+      Error comment_error = resumeComment(json_data);
       if (comment_error != Error::NoError)
         return comment_error;
 
-      cursor_index += comment_skip;
       end = cursor_index - 1;
       continue;
     }
@@ -2400,15 +2409,15 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   {
     const char c = json_data.data[end];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' &&
+                             (end + 1 == json_data.size || json_data.data[end + 1] == '/')))
     {
-      cursor_index = end + 2;
-      size_t comment_skip;
-      Error comment_error = skipComment(json_data, &comment_skip);
+      cursor_index = end + 1;
+      comment_state = CommentState::AfterSlash;
+      Error comment_error = resumeComment(json_data);
       if (comment_error != Error::NoError)
         return comment_error;
 
-      cursor_index += comment_skip;
       end = cursor_index - 1;
       continue;
     }
@@ -2492,6 +2501,27 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
   return Error::NeedMoreData;
 }
 
+inline Error Tokenizer::resumeComment(const DataRef &json_data)
+{
+  if (cursor_index >= json_data.size)
+    return Error::NeedMoreData;
+  if (comment_state == CommentState::AfterSlash)
+  {
+    if (json_data.data[cursor_index] != '/')
+      return Error::EncounteredIllegalChar;
+    cursor_index++;
+    comment_state = CommentState::InComment;
+  }
+  size_t comment_skip = 0;
+  Error error = skipComment(json_data, &comment_skip);
+  if (error == Error::NoError)
+  {
+    cursor_index += comment_skip;
+    comment_state = CommentState::None;
+  }
+  return error;
+}
+
 inline void Tokenizer::requestMoreData()
 {
   if (need_more_data_callback)
@@ -2652,6 +2682,12 @@ inline size_t strnlen(const char *data, size_t size)
 inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const DataRef &json_data)
 {
   Token tmp_token;
+  if (JSON_STRUCT_UNLIKELY(comment_state != CommentState::None))
+  {
+    Error error = resumeComment(json_data);
+    if (error != Error::NoError)
+      return error;
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
-- 
2.43.0


From 032125409bdae77ff22e69f69e5f677ee1131ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:02 +0000
Subject: [PATCH 15/26] fix: keep a name when the buffer ends right after it or
 its colon

The name (or the string element of an array) was held in a local token
only and came out empty when the next buffer supplied the rest.
---
 include/json_struct/json_struct.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a239c4a..fa8d3ff 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2875,6 +2875,13 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if ((token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData) &&
+      !intermediate_token.active)
+  {
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From 918c7319be9338e5476282d8c3ed431796bbfed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 16/26] fix: a tokenizer that is reset forgets the document it
 was reading

---
 include/json_struct/json_struct.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index fa8d3ff..30e0124 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1432,6 +1432,7 @@ private:
     InComment
   };
 
+  void resetForNewDocument();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1683,7 +1684,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1696,7 +1697,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1937,6 +1938,16 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+inline void Tokenizer::resetForNewDocument()
+{
+  token_state = InTokenState::FindingName;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  container_stack.clear();
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0


From c6728e519b3d18fb8c26d32a339a269de5319592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:18 +0000
Subject: [PATCH 17/26] fix: enumerators whose names start with an underscore
 get their own names

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 30e0124..09e8576 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5664,7 +5664,7 @@ void populateEnumNames(std::vector<DataRef> &names, const char (&data)[N])
     switch (state)
     {
     case ParseEnumStringState::FindingNameStart:
-      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
+      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_')
       {
         name_starts_at = i;
         state = ParseEnumStringState::FindingNameEnd;
-- 
2.43.0


From 45ded24de72a6c5d02345a46be4f41577103ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:04 +0000
Subject: [PATCH 18/26] fix: compact style set with setStyle writes no line
 breaks

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 09e8576..6b032ee 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3323,7 +3323,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.shiftSize() == 2 && m_option.style() == SerializerOptions::Pretty && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From acd6ddcbbe144123223d7f84626191076f989144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:04 +0000
Subject: [PATCH 19/26] fix: a delimiter is not written again after the
 serializer ran out of buffers

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6b032ee..e5a4ed0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3366,6 +3366,8 @@ inline bool Serializer::write(const Token &in_token)
       else if (m_option.depth() == 5)
         shortcut_front = write(begining_literals.get<4>());
     }
+    if (!shortcut_front && m_option.depth() >= 1 && m_option.depth() <= 5)
+      return false;
   }
 
   if (!shortcut_front)
-- 
2.43.0


From 0dcfd411707b8aea97636fb07cb738b3067e93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:04 +0000
Subject: [PATCH 20/26] fix: a SerializerContext can be written to after a
 flush

---
 include/json_struct/json_struct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e5a4ed0..7bd59a1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4721,8 +4721,8 @@ struct SerializerContext
     serializer.setBuffer(&json_out[0], json_out.size());
     serializer.setRequestBufferCallback([this](Serializer &serializer_p) {
       size_t end = this->json_out.size();
-      this->json_out.resize(end * 2);
-      serializer_p.setBuffer(&(this->json_out[0]) + end, end);
+      this->json_out.resize(end ? end * 2 : 4096);
+      serializer_p.setBuffer(&(this->json_out[0]) + end, this->json_out.size() - end);
       this->last_pos = end;
     });
   }
@@ -4743,6 +4743,8 @@ struct SerializerContext
   void flush()
   {
     json_out.resize(last_pos + serializer.currentBuffer().used);
+    last_pos = json_out.size();
+    serializer.setBuffer(nullptr, 0);
   }
 
   Serializer serializer;
-- 
2.43.0


From 9402df30184cdca47fd58e53a6f43a0f0152708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:59 +0000
Subject: [PATCH 21/26] fix: the message of an earlier error is not repeated in
 later error reports

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7bd59a1..341a1a9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1342,6 +1342,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
-- 
2.43.0


From e865bc90914f6c03984cfdc1127d9ed736ba4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:26 +0000
Subject: [PATCH 22/26] fix: negative numbers read into unsigned integers are
 clamped like other values out of range

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 341a1a9..5d1993f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8316,8 +8316,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return std::numeric_limits<T>::min();
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
-- 
2.43.0


From a1fa507ab9117418ae12883f2945471e11ca35be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:26 +0000
Subject: [PATCH 23/26] fix: zero with an exponent is read as the integer 0

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5d1993f..ff4a906 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8335,6 +8335,8 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
 
   int exp = parsed.exp;
   auto significand = parsed.significand;
+  if (significand == 0)
+    return T(0);
   if (exp < 0)
   {
     int chars_in_sig = count_chars(significand);
-- 
2.43.0


From c57659ccb148afdfaa4788b31cf4da598fbd6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:26 +0000
Subject: [PATCH 24/26] fix: scaling a number by its exponent does not wrap
 around

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ff4a906..7752bba 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8355,6 +8355,8 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
       return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
+      if (significand > std::numeric_limits<SignificandType>::max() / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From e23770142528e4dd87aff3fa460e2c1775338d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:26 +0000
Subject: [PATCH 25/26] fix: integers with more digits than fit are clamped and
 do not wrap around

---
 include/json_struct/json_struct.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7752bba..2ec3989 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8039,8 +8039,10 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
     }
     else
     {
-      bool keep_digit = NoDigitCount;
-      if (!keep_digit)
+      bool keep_digit;
+      if (NoDigitCount)
+        keep_digit = increase_significand && parsedString.significand <= (std::numeric_limits<T>::max() - T(int(c) - '0')) / 10;
+      else
         keep_digit = parsedString.significand_digit_count < 19;
       if (!NoDigitCount && c == '0' && parsedString.significand == 0)
       {
@@ -8078,6 +8080,8 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
       parsedString.exp = desimal_position - parsedString.significand_digit_count + uncounted_digits;
     else
       parsedString.exp = uncounted_digits;
+    if (NoDigitCount && !increase_significand && parsedString.exp > 0)
+      parsedString.inf = 1;
     return parse_string_error::ok;
   }
   current++;
@@ -8122,6 +8126,8 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
     parsedString.exp = desimal_position - parsedString.significand_digit_count + uncounted_digits + exponent;
   else
     parsedString.exp = uncounted_digits + exponent;
+  if (NoDigitCount && !increase_significand && parsedString.exp > 0)
+    parsedString.inf = 1;
   return parse_string_error::ok;
 }
 
-- 
2.43.0


From 45ae6cae324fd33f7d58de70717b0f9cc0f31b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:13 +0000
Subject: [PATCH 26/26] fix: zero with a large exponent is read as zero, not as
 infinity

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2ec3989..8d99616 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8159,6 +8159,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8168,10 +8172,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
-- 
2.43.0

