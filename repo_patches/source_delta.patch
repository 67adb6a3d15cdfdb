From b008ed1f0d17dddceeba0455a52390d5fbf8c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:56 +0000
Subject: [PATCH 01/19] fix: reject truncated MNIST headers instead of using an
 indeterminate value

---
 source/parser/mnist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..2994924 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -72,9 +72,12 @@ static inline std::uint32_t& uint32_endian_order(std::uint32_t& i)
  */
 static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
-    std::uint32_t ret;
+    std::uint32_t ret = 0;
     char* buf = reinterpret_cast<char*>(&ret);
-    ifs.read(buf, 4);
+    if (!ifs.read(buf, 4))
+    {
+        throw std::runtime_error("Data malformed: unexpected end of file");
+    }
     uint32_endian_order(ret);
     return ret;
 }
-- 
2.43.0


From 0e5635576fd68f91653e20a23c83c576eb6f9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 02/19] fix: clear the stream state before seeking to an MNIST
 or CIFAR record

---
 source/parser/cifar.hpp | 2 ++
 source/parser/mnist.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..ed5c45b 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -484,6 +484,7 @@ public:
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear(); // A previous failed read must not persist.
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
@@ -500,6 +501,7 @@ public:
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear(); // A previous failed read must not persist.
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 2994924..13889fa 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -374,6 +374,7 @@ public:
     MnistImage image(std::size_t idx)
     {
         idx = idx % _size;
+        _image_ifs.clear(); // A previous failed read must not persist.
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
         return MnistImage{_image_ifs, idx};
@@ -387,6 +388,7 @@ public:
     MnistLabel label(std::size_t idx)
     {
         idx = idx % _size;
+        _label_ifs.clear(); // A previous failed read must not persist.
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
         return MnistLabel{_label_ifs, idx};
-- 
2.43.0


From de0e81b4fccf999fea211677134372c658093773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 03/19] fix: sum the three weighted channels in the CIFAR
 perceived brightness

---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index ed5c45b..bc9bc33 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From 7ad9c51b3efca5c90c0b5d673142a300aedd7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:26 +0000
Subject: [PATCH 04/19] fix: pack the input features before the one hot labels
 whatever the label columns

---
 source/parser/parser.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..db749d4 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -245,14 +245,17 @@ public:
                 {
                     auto row = entry(row_idx);
 
-                    // Copy the input.
+                    // Copy the input, packed before the one hot vectors.
+                    SizeType input_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + input_idx]
+                                = row[col_idx];
+                            ++input_idx;
                         }
                     }
 
-- 
2.43.0


From 7fdbf356b422a48efc84d6c3161e5dc6da1be83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 05/19] fix: accumulate each input gradient in a single task of
 dense_1_thread_opt

Every task added its own contribution to the shared input_gradients array,
so concurrent tasks lost updates.
---
 source/dnn/dlmath.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..e33b042 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1889,11 +1889,20 @@ public:
                     {
                         weight_gradients[(out_idx * input_size) + j] +=
                             gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
                     }
                 }, i));
         }
+        for (SizeType j = 0; j < input_size; ++j)
+        {
+            futures.push_back(tm.enqueue(
+                [&](SizeType in_idx) {
+                    for (SizeType k = 0; k < output_size; ++k)
+                    {
+                        input_gradients[in_idx] +=
+                            gradients[k] * weights[(k * input_size) + in_idx];
+                    }
+                }, j));
+        }
         for (auto& f: futures) f.get();
         return input_gradients;
     }
-- 
2.43.0


From 9636e7d4f44ae6870fc85ec6c16a650ed00ab3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 06/19] fix: value-initialise the result of field and leaf
 conversions

Extraction from an empty text leaves its target untouched, so an empty CSV
field or JSON leaf converted to a number returned an indeterminate value.
---
 source/parser/csv.hpp  | 4 ++--
 source/parser/json.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..880f625 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -120,7 +120,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -380,7 +380,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..d2faea2 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -590,7 +590,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From 392c89dfd079686b768ca992f4a793e88845a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 07/19] fix: wrap the CSV row index before looking at the
 cached row

In a file with one row the initial cache (index 1) answered csv[1] with an
empty row, and csv[0] afterwards changed that answer.
---
 source/parser/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 880f625..ad6dd18 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -730,10 +730,10 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
-- 
2.43.0


From 809f6a5645b5fe4ac8342f5d4315e2f5fb2b5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 08/19] fix: count the last CSV row also when its newline is
 missing

---
 source/parser/csv.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index ad6dd18..f6d4e7a 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -656,10 +656,9 @@ public:
         }
 
         // Get number of rows.
-        file.unsetf(std::ios_base::skipws);
-        _rows_amount = static_cast<std::size_t>(
-            std::count(std::istream_iterator<char>(file), 
-                std::istream_iterator<char>(), '\n'));
+        _rows_amount = 0;
+        std::string line;
+        while (std::getline(file, line)) ++_rows_amount;
         file.clear();
         file.seekg(0);
 
-- 
2.43.0


From 426276182a586c1be65b012d46c2766366a46287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 09/19] fix: make the end iterator of CSV refer to the row past
 the last one

Iterating from begin() to end() skipped the last row, and never ended on a
file that only holds the header.
---
 source/parser/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index f6d4e7a..63e774d 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -759,12 +759,12 @@ public:
     }
     
     /**
-     * \brief Get the last CSVIterator.
+     * \brief Get the past-the-end CSVIterator.
      * \return CSVIterator
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
+        return CSVIterator{_fn, _rows_amount, _cols_amount, _types, 
                            _separator}; 
     }
 
-- 
2.43.0


From a9bf050fd29c9bc0055f85ac9941f580beb11321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 10/19] fix: return the empty last field of a CSV row from
 operator[]

The conversions to vector give the empty field that follows a final
separator; operator[] reported it as missing.
---
 source/parser/csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 63e774d..b1b34af 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -290,6 +290,11 @@ public:
             i++;
         }
 
+        if (i == idx && (_line.empty() || _line.back() == _separator))
+        {
+            return CSVField{std::string(), _types.at(idx), idx};
+        }
+
         throw std::runtime_error("CSV bad format: fields missing");
     }
 
-- 
2.43.0


From 5074d0dc9c6103a37a6fbfe42b0bca6bd612a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 11/19] fix: read empty JSON lists and objects

---
 source/parser/json.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index d2faea2..ac2acc8 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1541,7 +1541,11 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
     os.read(&c, 1);
 
     std::string more_items;
-    while (true) {
+    if (os.peek() == ']')
+    {
+        os.read(&c, 1);
+    }
+    else while (true) {
         std::getline(os, more_items, ']');
         os.seekg(-long(more_items.size() + 1), os.cur);
         JsonItem ji;
@@ -1589,7 +1593,11 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
     os.read(&c, 1);
 
     std::string more_items;
-    while (true)
+    if (os.peek() == '}')
+    {
+        os.read(&c, 1);
+    }
+    else while (true)
     {
         std::getline(os, more_items, '}');
         os.seekg(-long(more_items.size() + 1), os.cur);
-- 
2.43.0


From b0614fb93e67b6b13a9f8a5aedf0c609789a0f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 12/19] fix: compare empty JSON items without dereferencing
 them

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index ac2acc8..118d0cd 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1738,6 +1738,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return !_value && !rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 3493abbdaf8ef4dfe9b5d9cb5ea1639e7f9917d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 13/19] fix: keep the entry count of a matrix dataset to its
 whole sequences

The data is cut to whole sequences, but size() and entry() still referred to
the rows that were dropped.
---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..0f8802c 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
-- 
2.43.0


From c381889566802d55f487fc11f6b8e88b77d28749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 14/19] fix: do not divide by zero when setting the sequence
 size of an empty dataset

---
 source/data/dataset.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0f8802c..1c66d62 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
-        _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_size * _sequence_amount;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
-- 
2.43.0


From 03c245253c1ef644dd20791fa978578a2b870882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 15/19] fix: treat an empty text given to a JSON leaf as a
 string

It was classified as NONE and written as nothing, which the reader loses.
---
 source/parser/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 118d0cd..27254e1 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -493,7 +493,7 @@ public:
     {
         if (_type == TypeChecker::Type::AUTO)
         {
-            _type = _tc(_val);
+            _type = _val.empty() ? TypeChecker::Type::STRING : _tc(_val);
         }
     }
 
-- 
2.43.0


From 951e6b6a83aeb866a5d78e701d3fb1deb6c6d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 16/19] fix: let the first element of each window take its
 share of the gradient in average pooling

---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From 9dced6fa5d1d964fe6a75acfc0d717e297c52bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 17/19] fix: send the gradient to the window's first element
 when it is the largest in max pooling

---
 source/dnn/max_pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..ab7e7cb 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -72,7 +72,8 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
 
             NumType max = src[row * static_cast<int64_t>(src_step)
                               + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From f36fdb8bc17fe47a934266685640f391c6f85973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 18/19] fix: accumulate the bias gradients of the convolutional
 layer like its weight gradients

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..163804d 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -129,7 +129,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From 76d02a123598b8101823f4dcbb601d9b9e235a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:49 +0000
Subject: [PATCH 19/19] fix: add the bias of each filter to the output of the
 convolutional layer

---
 source/dnn/convolutional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 163804d..d1c3363 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -106,6 +106,12 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // The bias of each filter is added to the result of the filter.
+    for (SizeType i = 0; i < _output_activations.size(); ++i)
+    {
+        _output_activations[i] += _biases[i % _n_filters];
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0

