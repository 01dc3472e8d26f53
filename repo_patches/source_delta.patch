From 99fc744ad7f20c5e1c99fc13860e3cbea766f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 01/23] fix: base64 decoder reads before the input when it is
 shorter than two characters

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..361c341 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4665,9 +4665,9 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
+      if ((std::distance(begin,end) >= 2) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((std::distance(begin,end) >= 1) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From 18fb33c77cf2f9f961702a6885a75989d57334c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 02/23] fix: signed overflow when parsing the most negative int
 / long long

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 361c341..98cdf58 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17489,9 +17489,11 @@ namespace strtk
                return false;
          }
 
-         t = t * 10 + static_cast<T>(digit);
+         if (last_digit == numeric<T>::ldpos)
+            result = static_cast<T>( t * 10 + static_cast<T>(digit));
+         else
+            result = static_cast<T>(-t * 10 - static_cast<T>(digit));
 
-         result = (last_digit == numeric<T>::ldpos) ? t : -t;
          itr_external = itr;
          return true;
       }
-- 
2.43.0


From 59a5999a4b3e73854aba43a4b9f518cc95e57cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 03/23] fix: string to long / unsigned long rejected values
 outside the 32-bit range where long is 64-bit

---
 strtk.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 98cdf58..cb75ba2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16912,10 +16912,10 @@ namespace strtk
       template<>
       struct numeric<long>
       {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
+         static const unsigned int length       = (sizeof(long) > 4) ? 19 : 10;
+         static const unsigned int size         = (sizeof(long) > 4) ? 24 : 16;
+         static const unsigned int bound_length = (sizeof(long) > 4) ? 19 : 10;
+         static const long m10                  = static_cast<long>((~0UL >> 1) / 10);
          static const long ldpos                =  7;
          static const long ldneg                =  8;
       };
@@ -16923,10 +16923,10 @@ namespace strtk
       template<>
       struct numeric<unsigned long>
       {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
+         static const unsigned int  length       = (sizeof(unsigned long) > 4) ? 20 : 10;
+         static const unsigned int  size         = (sizeof(unsigned long) > 4) ? 24 : 16;
+         static const unsigned int  bound_length = (sizeof(unsigned long) > 4) ? 20 : 10;
+         static const unsigned long m10          = ~0UL / 10;
          static const unsigned long ldpos        = 5;
       };
 
-- 
2.43.0


From 8c0ac693dafb6620938f22d52a369e63cac029f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 04/23] fix: split_n ignored include_all_delimiters (kept only
 the first delimiter with the field)

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cb75ba2..10b1a62 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3579,14 +3579,17 @@ namespace strtk
          {
             if (include_delimiters)
             {
-               ++range.second;
+               if (include_1st_delimiter)
+                  ++range.second;
+               else if (include_all_delimiters)
+                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
                (*out) = range;
                ++out;
 
                if (++match_count >= token_count)
                   return match_count;
 
-               if (compress_delimiters)
+               if ((!include_all_delimiters) && compress_delimiters)
                   while ((end != range.second) && delimiter(*range.second)) ++range.second;
             }
             else
-- 
2.43.0


From a093fe7e79a96b107d75db3479a285198e5f1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 05/23] fix: offset_predicate read past its offset list when
 used again after being exhausted

---
 strtk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 10b1a62..c722e1d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3901,7 +3901,10 @@ namespace strtk
 
       inline int next() const
       {
-         int result = offset_list_[current_index_++];
+         int result = offset_list_[current_index_];
+
+         if (current_index_ < offset_list_size)
+            ++current_index_;
 
          if (rotate_ && (current_index_ >= offset_list_size))
          {
-- 
2.43.0


From 9735ae4399dbf303df1476e344dd4c699c51cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 06/23] fix: remove_duplicates indexed its table with a signed
 character

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c722e1d..0c00033 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1432,16 +1432,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[256];
+      std::fill_n(table,256,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
-- 
2.43.0


From 36a962d443ef6f94ea7c29a6bbaea652ac543a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 07/23] fix: remove_trailing kept the first element even if
 everything matched

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0c00033..882f5c5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1462,12 +1462,11 @@ namespace strtk
       if (0 == length)
          return 0;
 
-      Iterator itr = begin + (length - 1);
+      Iterator itr = end;
       std::size_t removal_count = 0;
 
-      while ((begin != itr) && predicate(*itr))
+      while ((begin != itr) && predicate(*(--itr)))
       {
-         --itr;
          ++removal_count;
       }
 
-- 
2.43.0


From 44f8b8a5be12c7722960a2e27104d5182685d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 08/23] fix: index_remover read past an empty index list

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 882f5c5..81d9a8c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1155,7 +1155,7 @@ namespace strtk
          : itr_(sequence.begin()),
            end_(sequence.end()),
            current_index_(0),
-           check_(true)
+           check_(sequence.begin() != sequence.end())
          {}
 
          template <typename T>
-- 
2.43.0


From d731a7344247e5c1c7a903430e559a646810ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 09/23] fix: byte swap of a 32-bit value lost two of its bytes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 81d9a8c..7a036ba 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13755,8 +13755,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 3bd2aad8821b2118cdd6b57cebc01cd08e4cc66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 10/23] fix: binary reader and writer capacity checks could
 wrap around

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7a036ba..8e324a5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13936,7 +13936,7 @@ namespace strtk
          inline bool seek(const int& n_bytes)
          {
             if (n_bytes < 0)
-               return rewind(-n_bytes);
+               return rewind(std::size_t(0) - static_cast<std::size_t>(n_bytes));
             else if (n_bytes > 0)
             {
                if ((amount_read_sofar_ + n_bytes) <= buffer_length_)
@@ -14225,7 +14225,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_read_qty)
          {
-            return ((required_read_qty + amount_read_sofar_) <= buffer_length_);
+            return (required_read_qty <= (buffer_length_ - amount_read_sofar_));
          }
 
          template <typename Type>
@@ -14582,7 +14582,7 @@ namespace strtk
                                 const padding_mode pmode,
                                 const char padding = ' ')
          {
-            if (amount_written_sofar_ + size <= buffer_length_)
+            if (buffer_capacity_ok(size))
             {
                std::string s;
                s.reserve(size);
@@ -14622,7 +14622,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_write_qty)
          {
-            return ((required_write_qty + amount_written_sofar_) <= buffer_length_);
+            return (required_write_qty <= (buffer_length_ - amount_written_sofar_));
          }
 
          template <typename Type>
-- 
2.43.0


From 5d5b9c3a89d7582de3e76b460d940de41e5f36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 11/23] fix: binary reader ignored a given 64-bit element count

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8e324a5..1f72fb0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13984,7 +13984,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 89844342e8d1bc8c0ed00e0745798f7b0025ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 12/23] fix: binary writer right padding produced the wrong
 length

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1f72fb0..dee2a79 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14593,7 +14593,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From 1ee464111deac6d3035f3936bdf4611fe24dc2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 13/23] fix: bloom filter copy constructor deleted an
 uninitialised table pointer

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index dee2a79..78f2b3e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20112,6 +20112,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From d110774065e23fd53189525699d0d33f4d2c2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 14/23] fix: bloom filter table was one byte short when its
 size is not a multiple of eight bits

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 78f2b3e..e9b1ac4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20106,7 +20106,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = (table_size_ / bits_per_char) + (((table_size_ % bits_per_char) != 0) ? 1 : 0);
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
@@ -20644,7 +20644,7 @@ namespace strtk
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
+            cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
 
             while (end != itr)
-- 
2.43.0


From 44b5b1ebc45b5537802d009a5f7cbabd1cd14cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 15/23] fix: compressing a bloom filter overran the new table
 and left the recorded table size stale

---
 strtk.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e9b1ac4..2dbed57 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20302,9 +20302,10 @@ namespace strtk
          {
             /* intersection */
             if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (salt_count_     == f.salt_count_)     &&
+                (table_size_     == f.table_size_)     &&
+                (raw_table_size_ == f.raw_table_size_) &&
+                (random_seed_    == f.random_seed_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20319,9 +20320,10 @@ namespace strtk
          {
             /* union */
             if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (salt_count_     == f.salt_count_)     &&
+                (table_size_     == f.table_size_)     &&
+                (raw_table_size_ == f.raw_table_size_) &&
+                (random_seed_    == f.random_seed_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20336,9 +20338,10 @@ namespace strtk
          {
             /* difference */
             if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (salt_count_     == f.salt_count_)     &&
+                (table_size_     == f.table_size_)     &&
+                (raw_table_size_ == f.raw_table_size_) &&
+                (random_seed_    == f.random_seed_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20646,14 +20649,19 @@ namespace strtk
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
             cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
+            cell_type* end_tmp = tmp + (new_table_size / bits_per_char);
 
             while (end != itr)
             {
                *(itr_tmp++) |= (*itr++);
+
+               if (end_tmp == itr_tmp)
+                  itr_tmp = tmp;
             }
 
             delete[] bit_table_;
             bit_table_ = tmp;
+            raw_table_size_ = new_table_size / bits_per_char;
             size_list.push_back(new_table_size);
 
             return true;
-- 
2.43.0


From d28ab45e1aa563134bceffe884705c0d1ab3be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 16/23] fix: string bit interleave sized its output for half
 the result; elementwise hamming distance never advanced

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2dbed57..ea811cb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4939,7 +4939,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(2 * str1.size());
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
@@ -5186,6 +5186,8 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From 13d4be00cc2b917e60fa9f39a0fd5e09cec35b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 17/23] fix: wildcard match did not backtrack, treated '?' as
 exactly one and read past the text

---
 strtk.hpp | 57 ++++++++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ea811cb..98b2ac1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1904,47 +1904,40 @@ namespace strtk
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_more,
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_one)
       {
-         Iterator d_itr = data_begin;
-         Iterator p_itr = pattern_begin;
+         // matched[k]: the data read so far is matched by the first k elements of the pattern
+         std::vector<char> matched(std::distance(pattern_begin,pattern_end) + 1,char(0));
+         std::size_t k = 0;
 
-         while ((p_itr != pattern_end) && (d_itr != data_end))
+         matched[0] = 1;
+
+         for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr, ++k)
          {
-            if (match_zero_or_more == *p_itr)
-            {
-               while ((p_itr != pattern_end) && (*p_itr == match_zero_or_more || *p_itr == match_zero_or_one))
-               {
-                  ++p_itr;
-               }
+            if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
+               matched[k + 1] = matched[k];
+         }
 
-               if (p_itr == pattern_end)
-                  return true;
+         for (Iterator d_itr = data_begin; d_itr != data_end; ++d_itr)
+         {
+            char previous = matched[0];
+            matched[0] = 0;
+            k = 0;
 
-               const typename std::iterator_traits<Iterator>::value_type c = *(p_itr++);
+            for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr, ++k)
+            {
+               const char current = matched[k + 1];
 
-               while ((d_itr != data_end) && !Comparator::cmp(c, *d_itr))
-               {
-                  ++d_itr;
-               }
+               if (match_zero_or_more == *p_itr)
+                  matched[k + 1] = (matched[k] || current);
+               else if (match_zero_or_one == *p_itr)
+                  matched[k + 1] = (matched[k] || previous);
+               else
+                  matched[k + 1] = (previous && Comparator::cmp(*p_itr,*d_itr));
 
-               ++d_itr;
+               previous = current;
             }
-            else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
-            {
-               ++d_itr;
-               ++p_itr;
-            }
-            else
-               return false;
          }
 
-         if (d_itr != data_end)
-            return false;
-         else if (p_itr == pattern_end)
-            return true;
-         else if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
-            ++p_itr;
-
-         return pattern_end == p_itr;
+         return (0 != matched[k]);
       }
    }
 
-- 
2.43.0


From 1cd4263af10d66b32c76c495c0ba7918ae84fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 18/23] fix: string_condition begins/ends-with required equal
 lengths; copies kept pointing into the original

---
 strtk.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 98b2ac1..60fac53 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19548,7 +19548,7 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::begins_with(s_begin, s_end, begin, end);
          }
@@ -19558,7 +19558,7 @@ namespace strtk
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::ends_with(s_begin, s_end, begin, end);
          }
@@ -19627,6 +19627,24 @@ namespace strtk
          }
       }
 
+      inline string_condition(const string_condition& sc)
+      : cond_type_(sc.cond_type_),
+        s(sc.s),
+        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
+        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size())),
+        condition_method_(sc.condition_method_)
+      {}
+
+      inline string_condition& operator=(const string_condition& sc)
+      {
+         cond_type_ = sc.cond_type_;
+         s = sc.s;
+         s_begin = reinterpret_cast<const unsigned char*>(to_ptr(s));
+         s_end   = reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size());
+         condition_method_ = sc.condition_method_;
+         return *this;
+      }
+
       template <typename Iterator>
       inline bool operator()(const Iterator begin, const Iterator end)
       {
-- 
2.43.0


From 694f584d2623e1e5d5401aaa768fe3404e1946c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 19/23] fix: find_all and ifind_all never ended for an empty
 pattern

---
 strtk.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 60fac53..c2e76bf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2053,6 +2053,10 @@ namespace strtk
       Iterator itr = begin;
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
+
+      if (0 == pattern_length)
+         return match_count;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end)))
       {
          (*out) = std::make_pair(itr,itr + pattern_length);
@@ -2102,6 +2106,9 @@ namespace strtk
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
 
+      if (0 == pattern_length)
+         return match_count;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
       {
          (*out) = std::make_pair(itr, itr + pattern_length);
-- 
2.43.0


From 05795ce30362de07a5f3f9b6e139c867073ab9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 20/23] fix: translation_table indexed outside its table for
 characters above 0x7F

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c2e76bf..27585de 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11805,13 +11805,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From e306a11ad00211cf23aeffe3e463b8e7e766e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 21/23] fix: replace_pattern wrote every piece to the start of
 its output

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 27585de..4020527 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1851,9 +1851,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From b2c5504a6b58f0e85762f0d953d28544e52b8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 22/23] fix: first_non_repeated_char indexed outside its table
 for characters above 0x7F

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4020527..f025c36 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4340,7 +4340,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From d5659266a8eb52f91561bb9b2e5cbc246d7409f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:17 +0000
Subject: [PATCH 23/23] fix: lexicographically_canonicalize picked rotations
 that are not the smallest one and read past an empty range

---
 strtk.hpp | 56 +++++++++++++------------------------------------------
 1 file changed, 13 insertions(+), 43 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f025c36..494831c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4255,60 +4255,30 @@ namespace strtk
    template <typename Iterator>
    inline void lexicographically_canonicalize(Iterator begin, Iterator end)
    {
-      typedef typename std::iterator_traits<Iterator>::value_type type;
-      typedef typename std::pair<Iterator,Iterator> iter_type;
-      typedef typename std::list<iter_type> itr_list_type;
-      itr_list_type itr_list;
-
-      type smallest = (*std::min_element(begin,end));
+      Iterator smallest = begin;
 
       for (Iterator itr = begin; itr != end; ++itr)
       {
-         if (*itr == smallest) itr_list.push_back(std::make_pair(itr,itr));
-      }
-
-      while (itr_list.size() > 1)
-      {
-         typename itr_list_type::iterator itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            ++(*itr).first;
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
-         }
+         Iterator itr0 = itr;
+         Iterator itr1 = smallest;
 
-         smallest = *(*itr_list.begin()).first;
-
-         for (itr = (++itr_list.begin()); itr != itr_list.end(); ++itr)
+         do
          {
-            if (*(*itr).first < smallest)
+            if (*itr0 < *itr1)
             {
-               smallest = *(*itr).first;
+               smallest = itr;
+               break;
             }
-         }
-
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-           if (*(*itr).first != smallest)
-              itr = itr_list.erase(itr);
-           else
-              ++itr;
-         }
+            else if (*itr1 < *itr0)
+               break;
 
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
+            if (end == ++itr0) itr0 = begin;
+            if (end == ++itr1) itr1 = begin;
          }
+         while (itr0 != itr);
       }
 
-      std::rotate(begin,(*itr_list.begin()).second,end);
+      std::rotate(begin,smallest,end);
    }
 
    inline void lexicographically_canonicalize(std::string& str)
-- 
2.43.0

