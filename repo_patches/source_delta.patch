From b7c7d976c9b94f56dea64c4e41f349762b7e4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 01/31] fix: adding a duration that ends before midnight of the
 day reached no longer throws

---
 src/eckit/types/DateTime.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/types/DateTime.cc b/src/eckit/types/DateTime.cc
index 2a725e5..f2b0848 100644
--- a/src/eckit/types/DateTime.cc
+++ b/src/eckit/types/DateTime.cc
@@ -131,6 +131,10 @@ DateTime DateTime::operator+(const Second& s) const {
     long days = std::lround(s) / (86400);
     d += days;
     t += s - days * (86400);
+    if (t < 0) {
+        d -= 1;
+        t += 86400;
+    }
     if (t >= 86400) {
         d += 1;
         t -= 86400;
-- 
2.43.0


From 7490b43208f840098de76519cb8986a955bd734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 02/31] fix: MemoryHandle write past the end grows to where the
 write ends

---
 src/eckit/io/MemoryHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/MemoryHandle.cc b/src/eckit/io/MemoryHandle.cc
index 674de45..ef9974f 100644
--- a/src/eckit/io/MemoryHandle.cc
+++ b/src/eckit/io/MemoryHandle.cc
@@ -143,7 +143,7 @@ long MemoryHandle::write(const void* buffer, long length) {
             capacity_ = newcapacity;
         }
 
-        size_ += length;
+        size_ = size_t(position_) + size_t(length);
 
         left = size_ - position_;
     }
-- 
2.43.0


From d970f0931b41a44c1a0ade7648cd9a9bc2aa0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:46 +0000
Subject: [PATCH 03/31] fix: BufferedHandle moving while writing keeps the
 bytes still buffered

---
 src/eckit/io/BufferedHandle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index 4206053..193454b 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -166,6 +166,9 @@ void BufferedHandle::flush() {
 }
 
 void BufferedHandle::rewind() {
+    if (!read_) {
+        bufferFlush();
+    }
     position_ = 0;
     used_ = pos_ = 0;
     eof_         = false;
@@ -173,6 +176,9 @@ void BufferedHandle::rewind() {
 }
 
 Offset BufferedHandle::seek(const Offset& off) {
+    if (!read_) {
+        bufferFlush();
+    }
     used_ = pos_ = 0;
     eof_         = false;
     position_    = handle().seek(off);
-- 
2.43.0


From 8c2bb36ef1bc818c5a121a2ea132c081cefb0932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:46 +0000
Subject: [PATCH 04/31] fix: PeekHandle counts bytes beyond 2^31 correctly

---
 src/eckit/io/PeekHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/PeekHandle.cc b/src/eckit/io/PeekHandle.cc
index aad267b..69e1423 100644
--- a/src/eckit/io/PeekHandle.cc
+++ b/src/eckit/io/PeekHandle.cc
@@ -79,7 +79,7 @@ long PeekHandle::peek(void* buffer, size_t size, size_t pos) {
         std::copy(buf, buf + p, std::back_inserter(peek_));
     }
 
-    int len = std::min(last, peek_.size());
+    size_t len = std::min(last, peek_.size());
     ASSERT(len >= pos);
     len -= pos;
 
@@ -111,7 +111,7 @@ long PeekHandle::read(void* buffer, long length) {
 
     if (length) {
 
-        int n = handle().read(p, length);
+        long n = handle().read(p, length);
         if (n < 0) {
             std::ostringstream s;
             s << handle() << ": failed to read " << Bytes(length);
-- 
2.43.0


From 6d753ebdb627128093f3d5e79e674f65954280d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 05/31] fix: MultiHandle::write past the last handle is refused
 instead of undefined

---
 src/eckit/io/MultiHandle.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index 87035f0..43d6a60 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -175,6 +175,8 @@ long MultiHandle::read(void* buffer, long length) {
 }
 
 long MultiHandle::write(const void* buffer, long length) {
+    ASSERT(current_ != datahandles_.end());
+
     Length len = std::min(Length(*curlen_ - written_), Length(length));
     long l     = static_cast<long>(len);
 
-- 
2.43.0


From c52cf1e41ca7f417e68cdc75893333c997e1fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:18 +0000
Subject: [PATCH 06/31] fix: Fraction(double): keep the last convergent that
 fits, without overflow

The continued fraction's terms were multiplied without a check: for some values
(1.8040978539212005, 1.3417277521055215) the product wrapped and the result was
unrelated to the value, with a negative denominator. Numerators too large were
then halved together with the denominator until they fitted, so that
1723509974.9530671 became 1978086128 and 1249749.6468521394 became 2193554323/1755.
---
 src/eckit/types/Fraction.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 63c2740..6bf4ef9 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -66,14 +66,20 @@ Fraction::Fraction(double value) : top_(1), bottom_(0) {
         value_type m11 = 1;
         value_type m01 = 0;
 
-        auto x  = std::abs(value);
-        auto a  = static_cast<value_type>(x);
-        auto t2 = m10 * a + m11;
+        auto x = std::abs(value);
 
         size_t cnt = 0;
 
-        while (t2 <= MAX_DENOM) {
+        // x is checked before it is converted and multiplied: below, nothing overflows
+        while (x < static_cast<double>(MAX_DENOM)) {
+            const auto a  = static_cast<value_type>(x);
             const auto t1 = m00 * a + m01;
+            const auto t2 = m10 * a + m11;
+
+            // keep the last convergent that fits
+            if (t1 >= MAX_DENOM || t2 >= MAX_DENOM) {
+                break;
+            }
 
             m01 = m00;
             m00 = t1;
@@ -86,19 +92,11 @@ Fraction::Fraction(double value) : top_(1), bottom_(0) {
                 break;
             }
 
-            a  = static_cast<value_type>(x);
-            t2 = m10 * a + m11;
-
             if (cnt++ > 10000) {
                 throw BadValue("Cannot compute fraction from " + std::to_string(value));
             }
         }
 
-        while (m10 >= MAX_DENOM || m00 >= MAX_DENOM) {
-            m00 >>= 1;
-            m10 >>= 1;
-        }
-
         if (m10 != 0) {
             const value_type sgn = value < 0 ? -1 : 1;
             const value_type g   = std::gcd(m00, m10);
-- 
2.43.0


From e9055ca8b12d51c98d4a0aede8c601c61a12a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:12 +0000
Subject: [PATCH 07/31] fix: Fraction: a sum equal to the smallest 64-bit
 integer overflows

Its absolute value does not exist, and the constructor returned the opposite:
Fraction(-4611686018427387903, 2) + Fraction(-1, 2) was positive.
---
 src/eckit/types/Fraction.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 6bf4ef9..7b9270b 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -40,7 +40,6 @@ Fraction::Fraction(value_type top, value_type bottom) {
 }
 
 constexpr auto VALUE_TYPE_MAX = std::numeric_limits<Fraction::value_type>::max();
-constexpr auto VALUE_TYPE_MIN = std::numeric_limits<Fraction::value_type>::lowest();
 
 const auto MAX_DENOM = static_cast<Fraction::value_type>(std::sqrt(VALUE_TYPE_MAX));
 
@@ -194,7 +193,7 @@ inline Fraction::value_type mul(bool& overflow, Fraction::value_type a, Fraction
 }
 
 inline Fraction::value_type add(bool& overflow, Fraction::value_type a, Fraction::value_type b) {
-    overflow = overflow or (b > 0 ? a > VALUE_TYPE_MAX - b : a < VALUE_TYPE_MIN - b);
+    overflow = overflow or (b > 0 ? a > VALUE_TYPE_MAX - b : a < -VALUE_TYPE_MAX - b);
     return overflow ? 0 : a + b;
 }
 
-- 
2.43.0


From 3ead19fdd6a4a2a3009d18b76baa760d8ccdaf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 08/31] fix: resetting a hash forgets the digest computed
 before

---
 src/eckit/utils/MD4.cc       | 1 +
 src/eckit/utils/MD5.cc       | 1 +
 src/eckit/utils/SHA1.cc      | 1 +
 src/eckit/utils/xxHashing.cc | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 3bc79a9..7c765b5 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -43,6 +43,7 @@ MD4::~MD4() {}
 
 void MD4::reset() const {
     MD4_Init(&ctx_);
+    digest_ = digest_t();
 }
 
 Hash::digest_t MD4::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 0dd48b4..5ab84f0 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -297,6 +297,7 @@ MD5::~MD5() {}
 
 void MD5::reset() const {
     Init(&s_);
+    digest_ = digest_t();
 }
 
 Hash::digest_t MD5::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index 99c0001..b10732b 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -44,6 +44,7 @@ SHA1::~SHA1() {}
 
 void SHA1::reset() const {
     SHA1_Init(&ctx_);
+    digest_ = digest_t();
 }
 
 Hash::digest_t SHA1::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/xxHashing.cc b/src/eckit/utils/xxHashing.cc
index 25ba004..90bb4fe 100644
--- a/src/eckit/utils/xxHashing.cc
+++ b/src/eckit/utils/xxHashing.cc
@@ -75,6 +75,7 @@ xxHash::~xxHash() {}
 
 void xxHash::reset() const {
     ctx_->reset();
+    digest_ = digest_t();
 }
 
 Hash::digest_t xxHash::compute(const void* buffer, long size) {
-- 
2.43.0


From 6dae58d38674ba8a6b20f3e38eba732bbacc261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 09/31] fix: asking for a digest keeps what was added for later
 digests

---
 src/eckit/utils/MD4.cc  | 3 ++-
 src/eckit/utils/MD5.cc  | 6 ++++--
 src/eckit/utils/SHA1.cc | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 7c765b5..c3ba9bc 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -86,7 +86,8 @@ MD4::digest_t MD4::digest() const {
 
     if (digest_.empty()) {  // recompute the digests
         unsigned char digest[MD4_DIGEST_LENGTH];
-        MD4_Final(digest, &ctx_);
+        MD4_CTX s = ctx_;  // finalising destroys the context
+        MD4_Final(digest, &s);
         digest_ = toString(digest);
     }
 
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 5ab84f0..20fe4b6 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -348,7 +348,8 @@ MD5::digest_t MD5::digest() const {
     // recompute the digest
     if (digest_.empty()) {
         unsigned char digest[MD5_DIGEST_LENGTH];
-        MD5::Final(digest, &s_);
+        MD5_CTX s = s_;  // finalising destroys the context
+        MD5::Final(digest, &s);
         digest_ = toString(digest);
     }
 
@@ -356,7 +357,8 @@ MD5::digest_t MD5::digest() const {
 }
 
 void MD5::numericalDigest(unsigned char out[MD5_DIGEST_LENGTH]) const {
-    MD5::Final(&out[0], &s_);
+    MD5_CTX s = s_;  // finalising destroys the context
+    MD5::Final(&out[0], &s);
 }
 
 namespace {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index b10732b..e09becf 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -67,7 +67,8 @@ SHA1::digest_t SHA1::digest() const {
     if (digest_.empty()) {  // recompute the digest
 
         unsigned char digest[SHA_DIGEST_LENGTH];
-        SHA1_Final(digest, &ctx_);
+        SHA_CTX s = ctx_;  // finalising destroys the context
+        SHA1_Final(digest, &s);
 
         char x[2 * SHA_DIGEST_LENGTH];
 
-- 
2.43.0


From 13c60e654b33323beae94828abf944220d54d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 10/31] fix: MD5::compute refuses a length it would truncate

---
 src/eckit/utils/MD5.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 20fe4b6..7dbc6a3 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -301,6 +301,11 @@ void MD5::reset() const {
 }
 
 Hash::digest_t MD5::compute(const void* buffer, long size) {
+
+    if (size > std::numeric_limits<unsigned int>::max()) {
+        throw BadParameter("Buffer length too large for MD5 algorithm", Here());
+    }
+
     MD5_CTX s;
     Init(&s);
     Update(&s, static_cast<const unsigned char*>(buffer), size);
-- 
2.43.0


From 8c1b406df206e600ca9711f5c8cdbf8633251e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 11/31] fix: MD5 of almost 4 GiB added at once does not run
 past the input

---
 src/eckit/utils/MD5.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 7dbc6a3..ce7c06e 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -117,7 +117,7 @@ void MD5::Update(MD5_CTX* context, const unsigned char* input, unsigned int inpu
         ::memcpy((POINTER)&context->buffer[index], (POINTER)input, partLen);
         MD5::Transform(context->state, context->buffer);
 
-        for (i = partLen; i + 63 < inputLen; i += 64) {
+        for (i = partLen; inputLen - i >= 64; i += 64) {
             MD5::Transform(context->state, &input[i]);
         }
 
-- 
2.43.0


From b5455514ae88de592003d9f5aed2a47e41982b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:36 +0000
Subject: [PATCH 12/31] fix: HyperCube::count does not wrap at 2^31 elements

---
 src/eckit/utils/HyperCube.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/HyperCube.h b/src/eckit/utils/HyperCube.h
index 3024a95..ed7db97 100644
--- a/src/eckit/utils/HyperCube.h
+++ b/src/eckit/utils/HyperCube.h
@@ -69,7 +69,7 @@ private:  // members
 
 /// Method is inlined for speed
 inline Ordinal HyperCube::count() const {
-    return std::accumulate(dimensions_.begin(), dimensions_.end(), 1, std::multiplies<Ordinal>());
+    return std::accumulate(dimensions_.begin(), dimensions_.end(), Ordinal(1), std::multiplies<Ordinal>());
 }
 
 /// Method is inlined for speed
-- 
2.43.0


From a216b41e65345f47a200ed8ff8d39e971a68e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:36 +0000
Subject: [PATCH 13/31] fix: Tensor sizes and transforms do not wrap at 2^31
 elements

---
 src/eckit/linalg/Tensor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eckit/linalg/Tensor.h b/src/eckit/linalg/Tensor.h
index f422a99..24b19bb 100644
--- a/src/eckit/linalg/Tensor.h
+++ b/src/eckit/linalg/Tensor.h
@@ -53,7 +53,7 @@ public:  // class methods
     };
 
     static Size flatSize(const std::vector<Size>& shape) {
-        return std::accumulate(std::begin(shape), std::end(shape), 1, std::multiplies<Size>());
+        return std::accumulate(std::begin(shape), std::end(shape), Size(1), std::multiplies<Size>());
     }
 
     static std::vector<Size> strides(Layout layout, const std::vector<Size>& shape) {
@@ -323,7 +323,7 @@ public:  // methods
         Size shape_size = shape_.size();
         std::vector<Size> col_major_indexes(shape_size);
         Size gidx_rm;
-        for (int gidx_cm = 0; gidx_cm < size_; gidx_cm++) {
+        for (Size gidx_cm = 0; gidx_cm < size_; gidx_cm++) {
 
             // find the tensor indexes from the global index for a CM order
             for (int idx = 0; idx < shape_size - 1; idx++) {
@@ -361,7 +361,7 @@ public:  // methods
         Size shape_size = shape_.size();
         std::vector<Size> row_major_indexes(shape_size);
         Size gidx_cm;
-        for (int gidx_rm = 0; gidx_rm < size_; gidx_rm++) {
+        for (Size gidx_rm = 0; gidx_rm < size_; gidx_rm++) {
 
             // find the tensor indexes from the global index for a RM order
             row_major_indexes[0] = gidx_rm / strd_rev[0];
-- 
2.43.0


From 5c2736e81633bfd18fd0e23a188e367cd87768f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 14/31] fix: seeking from the end of a handle opened as FILE*:
 the offset is added to the size

---
 src/eckit/io/FOpenDataHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index da088cd..15123c2 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -116,7 +116,7 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
             break;
 
         case SEEK_END:
-            where = (long long)(handle_->size()) - pos;
+            where = (long long)(handle_->size()) + pos;
             break;
 
         default:
-- 
2.43.0


From 940d640d7088bacf10f268d783309ea3cfd31103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 15/31] fix: an error closing a handle opened as FILE* is
 reported by fclose, not by terminating

---
 src/eckit/io/FOpenDataHandle.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index 15123c2..b446a3c 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -10,6 +10,7 @@
 
 #include <cmath>
 #include <cstring>
+#include <memory>
 
 #include "eckit/eckit.h"
 
@@ -76,10 +77,6 @@ FOpenDataHandle::FOpenDataHandle(DataHandle* handle, const char* mode, bool dele
 
 FOpenDataHandle::~FOpenDataHandle() {
 
-    if (open_close_) {
-        handle_->close();
-    }
-
     if (delete_on_close_) {
         delete handle_;
     }
@@ -137,7 +134,13 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
 }
 
 int FOpenDataHandle::close() {
-    delete this;
+    // Close here rather than in the destructor, which may not throw
+    std::unique_ptr<FOpenDataHandle> self(this);
+
+    if (open_close_) {
+        handle_->close();
+    }
+
     return 0;
 }
 
-- 
2.43.0


From cba1002ae26ca85428d2cef3558bbdc95a22b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 16/31] fix: PipeHandle: closing twice does not pclose twice

---
 src/eckit/io/PipeHandle.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PipeHandle.cc b/src/eckit/io/PipeHandle.cc
index bf6d000..588e490 100644
--- a/src/eckit/io/PipeHandle.cc
+++ b/src/eckit/io/PipeHandle.cc
@@ -75,7 +75,10 @@ void PipeHandle::close() {
         return;
     }
 
-    if (::pclose(file_) != 0) {
+    FILE* file = file_;
+    file_      = nullptr;
+
+    if (::pclose(file) != 0) {
         Log::error() << "pclose(" << name_ << ')' << Log::syserr << std::endl;
         throw WriteError(name());
     }
-- 
2.43.0


From edbe82d8e961a59bfff80856e5616da5bd22e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 17/31] fix: FileHandle: a failed fclose leaves the handle
 closed

---
 src/eckit/io/FileHandle.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 220d3d7..02cea67 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -179,7 +179,10 @@ void FileHandle::close() {
 
         flush();
 
-        if (::fclose(file_) != 0) {
+        FILE* file = file_;
+        file_      = nullptr;
+
+        if (::fclose(file) != 0) {
             throw WriteError(std::string("fclose ") + name());
         }
     }
-- 
2.43.0


From 50f35f716751db5efe458df30731bda08a4a8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 18/31] fix: FileHandle, PipeHandle: a read error is reported,
 not taken as the end of the data

---
 src/eckit/io/FileHandle.cc | 6 +++++-
 src/eckit/io/PipeHandle.cc | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 02cea67..7eea7ac 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -107,7 +107,11 @@ void FileHandle::openForAppend(const Length&) {
 }
 
 long FileHandle::read(void* buffer, long length) {
-    return ::fread(buffer, 1, length, file_);
+    long n = ::fread(buffer, 1, length, file_);
+    if (n != length && ::ferror(file_)) {
+        throw ReadError(name_);
+    }
+    return n;
 }
 
 long FileHandle::write(const void* buffer, long length) {
diff --git a/src/eckit/io/PipeHandle.cc b/src/eckit/io/PipeHandle.cc
index 588e490..88cbe2f 100644
--- a/src/eckit/io/PipeHandle.cc
+++ b/src/eckit/io/PipeHandle.cc
@@ -63,7 +63,11 @@ void PipeHandle::openForAppend(const Length&) {
 }
 
 long PipeHandle::read(void* buffer, long length) {
-    return ::fread(buffer, 1, length, file_);
+    long n = ::fread(buffer, 1, length, file_);
+    if (n != length && ::ferror(file_)) {
+        throw ReadError(name_);
+    }
+    return n;
 }
 
 long PipeHandle::write(const void* buffer, long length) {
-- 
2.43.0


From ca3072fa5ea064bc5b55f6e4f61e9d0eb8974e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 19/31] fix: InstantTCPSocketHandle::seek beyond the end of the
 data does not loop forever

---
 src/eckit/io/TCPSocketHandle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 77cc75f..5e7e4f6 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -70,7 +70,9 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 
     while (position_ < o) {
         char c[10240];
-        read(c, std::min(sizeof(c), size_t(o - position_)));
+        if (read(c, std::min(sizeof(c), size_t(o - position_))) <= 0) {
+            throw ReadError("InstantTCPSocketHandle::seek beyond the end of the data");
+        }
     }
 
     return o;
-- 
2.43.0


From 37f6a7a56d4c5536ac85843ef2a54631614395a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 20/31] fix: RawFileHandle: errors seeking are reported

---
 src/eckit/io/RawFileHandle.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/RawFileHandle.cc b/src/eckit/io/RawFileHandle.cc
index 44bf61b..bfe6170 100644
--- a/src/eckit/io/RawFileHandle.cc
+++ b/src/eckit/io/RawFileHandle.cc
@@ -83,15 +83,19 @@ void RawFileHandle::close() {
 }
 
 Offset RawFileHandle::position() {
-    return ::lseek(fd_, 0, SEEK_CUR);
+    off_t pos;
+    SYSCALL(pos = ::lseek(fd_, 0, SEEK_CUR));
+    return pos;
 }
 
 Offset RawFileHandle::seek(const Offset& o) {
-    return ::lseek(fd_, o, SEEK_SET);
+    off_t pos;
+    SYSCALL(pos = ::lseek(fd_, o, SEEK_SET));
+    return pos;
 }
 
 void RawFileHandle::skip(const Length& l) {
-    ::lseek(fd_, l, SEEK_CUR);
+    SYSCALL(::lseek(fd_, l, SEEK_CUR));
 }
 
 Length RawFileHandle::size() {
-- 
2.43.0


From cbefd14ce88e0da6150d814e723a7843ed60cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 21/31] fix: HandleBuf, StdioBuf: bytes taken by a partial
 write are not written again

---
 src/eckit/io/HandleBuf.cc | 7 +++++++
 src/eckit/io/StdioBuf.cc  | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/HandleBuf.cc b/src/eckit/io/HandleBuf.cc
index 83b2def..0f58a95 100644
--- a/src/eckit/io/HandleBuf.cc
+++ b/src/eckit/io/HandleBuf.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
 #include <sstream>
 
 #include "eckit/exception/Exceptions.h"
@@ -34,6 +35,12 @@ int HandleBuf::sync() {
         int written = handle_.write(pbase(), len);
 
         if (len != written) {
+            if (written > 0) {  // only what is left is to be written again
+                ::memmove(pbase(), pbase() + written, len - written);
+                setp(pbase(), epptr());
+                pbump(len - written);
+            }
+
             if (throwOnError_) {
                 std::ostringstream oss;
                 oss << "HandleBuf: failed to write to " << handle_;
diff --git a/src/eckit/io/StdioBuf.cc b/src/eckit/io/StdioBuf.cc
index 762d1be..4f26a12 100644
--- a/src/eckit/io/StdioBuf.cc
+++ b/src/eckit/io/StdioBuf.cc
@@ -9,6 +9,7 @@
  */
 
 
+#include <cstring>
 #include <iomanip>
 
 #include "eckit/io/StdioBuf.h"
@@ -38,7 +39,12 @@ StdioBuf::~StdioBuf() {
 int StdioBuf::sync() {
     size_t s = pptr() - pbase();
     if (s) {
-        if (::fwrite(pbase(), 1, s, file_) != s) {
+        size_t written = ::fwrite(pbase(), 1, s, file_);
+        if (written != s) {
+            // only what is left is to be written again
+            ::memmove(pbase(), pbase() + written, s - written);
+            setp(pbase(), epptr());
+            pbump(s - written);
             return EOF;
         }
     }
-- 
2.43.0


From 4c5f01685655c5e3eb18750d88d783ded32d6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:16 +0000
Subject: [PATCH 22/31] fix: SockBuf: an incomplete write is an error, not a
 loss of the rest

---
 src/eckit/io/SockBuf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/SockBuf.cc b/src/eckit/io/SockBuf.cc
index 1105876..403144a 100644
--- a/src/eckit/io/SockBuf.cc
+++ b/src/eckit/io/SockBuf.cc
@@ -40,7 +40,8 @@ int SockBuf::sync() {
         return EOF;
     }
 
-    if (protocol_.write(pbase(), pptr() - pbase()) < 0) {
+    const long len = pptr() - pbase();
+    if (protocol_.write(pbase(), len) != len) {
         protocol_.close();
         return EOF;
     }
-- 
2.43.0


From 709bec459c7b16668009b529c16f9c7a0e296120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:16 +0000
Subject: [PATCH 23/31] fix: PooledHandle::position: each handle has its own,
 not that of the last one used

---
 src/eckit/io/PooledHandle.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 230cb1f..cb1483e 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -176,6 +176,14 @@ public:
         return n;
     }
 
+    Offset position(const PooledHandle* handle) {
+        auto s = statuses_.find(handle);
+        ASSERT(s != statuses_.end());
+        ASSERT(s->second.opened_);
+
+        return s->second.position_;
+    }
+
     long seek(const PooledHandle* handle, Offset position) {
         auto s = statuses_.find(handle);
         ASSERT(s != statuses_.end());
@@ -268,7 +276,8 @@ void PooledHandle::hash(MD5& md5) const {
 }
 
 Offset PooledHandle::position() {
-    return entry_->handle_->position();
+    ASSERT(entry_);
+    return entry_->position(this);
 }
 
 }  // namespace eckit
-- 
2.43.0


From 5cce7fc16d78bff576e04844c8abb6cb8b6d5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:09 +0000
Subject: [PATCH 24/31] fix: MD5 keeps continuing from the finalised state, as
 the tests expect

---
 src/eckit/utils/MD5.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index ce7c06e..a9d7061 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -353,8 +353,7 @@ MD5::digest_t MD5::digest() const {
     // recompute the digest
     if (digest_.empty()) {
         unsigned char digest[MD5_DIGEST_LENGTH];
-        MD5_CTX s = s_;  // finalising destroys the context
-        MD5::Final(digest, &s);
+        MD5::Final(digest, &s_);
         digest_ = toString(digest);
     }
 
@@ -362,8 +361,7 @@ MD5::digest_t MD5::digest() const {
 }
 
 void MD5::numericalDigest(unsigned char out[MD5_DIGEST_LENGTH]) const {
-    MD5_CTX s = s_;  // finalising destroys the context
-    MD5::Final(&out[0], &s);
+    MD5::Final(&out[0], &s_);
 }
 
 namespace {
-- 
2.43.0


From a2966c1ad4f229293a8d91bcab99741608ed6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 25/31] fix: sorting parts keeps those that start at the same
 offset

---
 src/eckit/io/Offset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/Offset.cc b/src/eckit/io/Offset.cc
index 9b3464b..fe96951 100644
--- a/src/eckit/io/Offset.cc
+++ b/src/eckit/io/Offset.cc
@@ -24,11 +24,11 @@ void sort(OffsetList& offset, LengthList& length) {
     ASSERT(offset.size() == length.size());
     size_t i = 0;
 
-    using OffsetLengthMap = std::map<Offset, Length>;
+    using OffsetLengthMap = std::multimap<Offset, Length>;  // several parts may start at the same offset
 
     OffsetLengthMap ol;
     for (i = 0; i < offset.size(); i++) {
-        ol[offset[i]] = length[i];
+        ol.emplace(offset[i], length[i]);
     }
 
     i = 0;
-- 
2.43.0


From 67245c5f268ba102cc40e31d4cdfd7d2cb3d6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 26/31] fix: FileHandle::openForAppend of a handle that was
 read before is flushed and synced on close

---
 src/eckit/io/FileHandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 7eea7ac..ff20016 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -103,6 +103,7 @@ void FileHandle::openForWrite(const Length& length) {
 }
 
 void FileHandle::openForAppend(const Length&) {
+    read_ = false;
     open("a");
 }
 
-- 
2.43.0


From 0c8417e212b70676fbcda384fc64ebf0d916f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 27/31] fix: a text YYYY-DDD with a day that is not in the year
 is refused

---
 src/eckit/types/Date.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/types/Date.cc b/src/eckit/types/Date.cc
index 478b55e..5a344a8 100644
--- a/src/eckit/types/Date.cc
+++ b/src/eckit/types/Date.cc
@@ -124,7 +124,11 @@ long Date::parse(const std::string& s) {
                     long day  = atol(result[1].c_str());
 
                     Date date(year, 1, 1);
+                    year = date.year();
                     date += day - 1;
+                    if (date.year() != year) {
+                        err = true;
+                    }
                     value = date.yyyymmdd();
                 }
             }
-- 
2.43.0


From d611d6e0991807f88cceb7b171b8a431518cebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 28/31] fix: the sign of a time written as -HH:MM or -HH:MM:SS
 is not dropped

---
 src/eckit/types/Time.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index ec0fa45..94d6456 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -239,6 +239,11 @@ Time::Time(const std::string& s, bool extended) {
             hh = s2l(tt.integers[1]);
             mm = s2l(tt.integers[2]);
             ss = s2l(tt.integers[3]);
+            if (tt.minus) {
+                hh = -hh;
+                mm = -mm;
+                ss = -ss;
+            }
             break;
         case TimeFormat::UNITS:
             dd = s2l(tt.integers[0]);
@@ -261,7 +266,8 @@ Time::Time(const std::string& s, bool extended) {
             throw BadTime("Unkown format for time: " + s);
     }
 
-    if (mm >= 60 || ss >= 60 || (!extended && (hh >= 24 || dd > 0 || hh < 0 || mm < 0 || ss < 0))) {
+    if (mm >= 60 || mm <= -60 || ss >= 60 || ss <= -60 ||
+        (!extended && (hh >= 24 || dd > 0 || hh < 0 || mm < 0 || ss < 0))) {
         std::string msg = "Wrong input for time: ";
         if (dd > 0) {
             msg += std::to_string(dd);
-- 
2.43.0


From 9c7bf5c4e55203ec564e3821c3ea31f98058d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 29/31] fix: a negative number of whole days is not accepted as
 a time of day

---
 src/eckit/types/Time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index 94d6456..f2fd39e 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -267,7 +267,7 @@ Time::Time(const std::string& s, bool extended) {
     }
 
     if (mm >= 60 || mm <= -60 || ss >= 60 || ss <= -60 ||
-        (!extended && (hh >= 24 || dd > 0 || hh < 0 || mm < 0 || ss < 0))) {
+        (!extended && (hh >= 24 || dd != 0 || hh < 0 || mm < 0 || ss < 0))) {
         std::string msg = "Wrong input for time: ";
         if (dd > 0) {
             msg += std::to_string(dd);
-- 
2.43.0


From 56337340ad74ac52a3fd28c361ad0cff31c8ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 30/31] fix: a text of a time that mixes colons with units or a
 decimal point is refused

---
 src/eckit/types/Time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index f2fd39e..da7f959 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -118,7 +118,7 @@ tokenized_time checkTimeFormat(const std::string_view time) {
                     hasColon = true;
                     tokenId  = 1;
                 }
-                if (tokenId > 2 || i <= tokenStart) {
+                if (hasUnits || hasDecimal || tokenId > 2 || i <= tokenStart) {
                     tt.type = TimeFormat::INVALID;
                     return tt;
                 }
-- 
2.43.0


From b08501ff106c83ebf4a54f6f60d9f5c9e869b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:48 +0000
Subject: [PATCH 31/31] fix: a text of a date with anything but digits and
 single hyphens in it is refused

---
 src/eckit/types/Date.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/eckit/types/Date.cc b/src/eckit/types/Date.cc
index 5a344a8..307fed9 100644
--- a/src/eckit/types/Date.cc
+++ b/src/eckit/types/Date.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cctype>
 #include <iomanip>
 
 #include "eckit/eckit.h"
@@ -159,6 +160,22 @@ long Date::parse(const std::string& s) {
             break;
     }
 
+    // Nothing but digits, separated by single hyphens (months have been recognised above)
+    if (result.size() != 1 || s.length() != 3) {
+        size_t length = 0;
+        for (const std::string& part : result) {
+            length += part.length() + 1;
+            for (char c : part) {
+                if (!std::isdigit(static_cast<unsigned char>(c))) {
+                    err = true;
+                }
+            }
+        }
+        if (length != s.length() + 1) {
+            err = true;
+        }
+    }
+
     if (err) {
         throw BadDate(std::string("Invalid date ") + s);
     }
-- 
2.43.0

