From 7563489845eaaec0f49835b7d47bb7b5dac11e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 01/17] fix: input setup derives the mask from all additive
 shares of the key

The mask keys were an additive sharing into one piece per party, while the
replicated sharing of the same key has one piece per share-holding set. The
two only agree when these counts coincide (n = 4).
---
 src/frn/input_corr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..c055154 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,8 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(
+      k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From b08f34269b0b5c73ed967a8aacd5cafb3ee75492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 02/17] fix: input mask shares advance the stored generators

GetMaskShare drew from a copy of the generators, so a second input by the
same party was masked inconsistently with its mask share.
---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..b34cec6 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto &prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From 07f87953dbf371883489d9e1a29db34ef409514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 03/17] fix: store the random share of a multiplication once

Prepare and MultiplyToAddAndMsgs both appended it, so the second and later
products of a batch were unmasked with the wrong random share.
---
 src/frn/mult.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..4804c95 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -140,8 +140,6 @@ class Mult {
 
   AddAndMsgs MultiplyToAddAndMsgs(const Shr& a, const Shr& b,
                                   const RandomShare& randomShares) {
-    mRandomShares.emplace_back(randomShares);
-
     // Initialize output
     AddAndMsgs output;
     output.add_share = Field(0);
-- 
2.43.0


From 2255e3f96e49c1824d89fbc60fafa1dc892f334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 04/17] fix: reconstruction table entries list only their own
 receivers

The entry was reused between shares, so every receiver set also contained the
receivers of all earlier shares.
---
 src/frn/shr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..3446d0e 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,9 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
+
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From ce3b96c3b090d688fbf1bdade5d770315a34abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 05/17] fix: all parties 0 < i < 2d+1 compress their check data

The last two of them were skipped.
---
 src/frn/check.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/check.h b/src/frn/check.h
index 7db14f5..233bc29 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -81,7 +81,7 @@ class Check {
     START_TIMER(LinearComb);
 
     // this assumes 2d+1 = n-d <> n=3d+1 (so U=T)
-    if ((0 < mId) && (mId < 2 * mThreshold - 1)) {
+    if ((0 < mId) && (mId < 2 * mThreshold + 1)) {
       for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
 
         mCompressedCD.shares_sent_to_p1 +=
-- 
2.43.0


From 995e23fec721ceffa114caf74ccf92012eea09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 06/17] fix: hash every byte of a full input word

Bytes 2..7 of each word were replaced by byte 1.
---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 9941375d8a37c1b8e8a04056ee026ac23f23c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 07/17] fix: reject submatrices that end outside the matrix

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index ca5c7c5..4e1142b 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -92,10 +92,10 @@ class Matrix {
    */
   Matrix extract_submatrix(std::size_t row_beg, std::size_t row_end,
                            std::size_t col_beg, std::size_t col_end) {
-    if (row_beg > row_end || row_end - row_beg > RowCount())
+    if (row_beg > row_end || row_end > RowCount())
       throw std::logic_error("invalid row offsets");
 
-    if (col_beg > col_end || col_end - col_beg > ColumnCount())
+    if (col_beg > col_end || col_end > ColumnCount())
       throw std::logic_error("invalid column offsets");
 
     auto nrows = row_end - row_beg;
-- 
2.43.0


From 566d03eea595f1bfe7c2ec26468db5dcc4063cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 08/17] fix: print the rows of a matrix as rows

Row and column counts were swapped, which reads out of bounds unless the
matrix is square.
---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index 4e1142b..bc13173 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -254,8 +254,8 @@ class Matrix {
    * @return a string representation of this matrix
    */
   std::string ToString() const {
-    const auto n = ColumnCount();
-    const auto m = RowCount();
+    const auto n = RowCount();
+    const auto m = ColumnCount();
 
     // convert all elements to strings and find the widest string in each
     // column.
-- 
2.43.0


From 7a0e47f088ebfb722e726021c01bf92710e3a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 09/17] fix: 65536 is not a valid port

---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..6da4b53 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -249,7 +249,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From aa7b5c3eece24a1a32fcdb95a398e9de40fe8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 10/17] fix: local connector keeps the unread part of a message

Receiving fewer bytes than the sender sent in one go dropped the rest.
---
 src/frn/lib/net/connector.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 6da4b53..e4f58b3 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,14 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
-    auto actual_size = std::min(data.size(), size);
-    std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    const auto &data = mIncoming->Front();
+    auto actual_size = std::min(data.size() - mOffset, size);
+    std::memcpy(buffer, data.data() + mOffset, actual_size);
+    mOffset += actual_size;
+    if (mOffset == data.size()) {
+      mIncoming->PopFront();
+      mOffset = 0;
+    }
     return actual_size;
   };
 
@@ -196,6 +200,9 @@ class LocalConnector : public Connector {
 
   BufferPtr mOutgoing = 0;
   BufferPtr mIncoming = 0;
+
+  // bytes of the first incoming message which have already been received.
+  std::size_t mOffset = 0;
 };
 
 /**
-- 
2.43.0


From 08f9cba1e1f03db9a12a45a7f3330364fe995291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 11/17] fix: receiving from a disconnected peer is an error

Recv reported that all requested bytes had arrived, handing the caller an
uninitialised buffer.
---
 src/frn/lib/net/connector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..a1486dd 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -63,7 +63,10 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
     // other end disconnected.
-    if (!n) break;
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::runtime_error("connection closed by peer");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From 3b200700c9b43724bcd87b21daed45f70bc6979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 12/17] fix: validate replicator parameters before using them

Binom divides by zero for n <= t with a large t, so the constructor crashed
instead of throwing.
---
 src/frn/lib/secret_sharing/rep.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a623357..a1b96ea 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -172,14 +172,13 @@ class Replicator {
    * @param t the privacy threshold
    */
   Replicator(std::size_t n, std::size_t t)
-      : mSize(n),
-        mThreshold(t),
-        mShareSize(Binom(n - 1, t)),
-        mAdditiveShareSize(Binom(n, t)) {
+      : mSize(n), mThreshold(t) {
     if (mSize <= mThreshold)
       throw std::invalid_argument("privacy threshold cannot be larger than n");
     if (!mThreshold)
       throw std::invalid_argument("privacy threshold cannot be 0");
+    mShareSize = Binom(n - 1, t);
+    mAdditiveShareSize = Binom(n, t);
     Init();
   };
 
-- 
2.43.0


From 560e5b33269b5bdafb97f4f3ae5a712ca0e0042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 13/17] fix: binomial coefficients do not overflow in
 intermediate products

Binom(30, 15) was wrong although the result fits in 32 bits.
---
 src/frn/lib/secret_sharing/rep.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a1b96ea..55ef812 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -18,13 +18,11 @@ namespace secret_sharing {
  */
 constexpr std::size_t Binom(const std::size_t m, const std::size_t k) {
   std::size_t end = k > m - k ? m - k : k;
-  std::size_t top = 1;
-  std::size_t bot = 1;
+  std::size_t result = 1;
   for (std::size_t i = 1; i <= end; ++i) {
-    top *= (m + 1 - i);
-    bot *= i;
+    result = result * (m - end + i) / i;
   }
-  return top / bot;
+  return result;
 }
 
 /**
-- 
2.43.0


From 1ac59e9aad97a38929d75efe5cc698f1e91fcf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 14/17] fix: network builder checks connection information when
 building

A connection file given before the size was never compared with it, and a
missing one surfaced as bad_optional_access.
---
 src/frn/lib/net/builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frn/lib/net/builder.cc b/src/frn/lib/net/builder.cc
index 41ef815..0a52d78 100644
--- a/src/frn/lib/net/builder.cc
+++ b/src/frn/lib/net/builder.cc
@@ -78,6 +78,11 @@ Network frn::lib::net::Network::Builder::Build() const {
     if (mAllLocal) {
       for (auto& ip : ips) ip = "0.0.0.0";
     } else {
+      if (!mIps) throw std::logic_error("no connection information provided");
+      if (mIps->size() != n)
+        throw std::logic_error(
+            "number of entries in connection file "
+            "does not match network size");
       ips = mIps.value();
     }
 
-- 
2.43.0


From 9fa3609e33fb8dca0fa60f6fe30607b0e9213990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 15/17] fix: scale a vector by one of its own elements

The scalar changed while the vector was updated in place.
---
 src/frn/lib/math/vec.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/vec.h b/src/frn/lib/math/vec.h
index e03e580..49365df 100644
--- a/src/frn/lib/math/vec.h
+++ b/src/frn/lib/math/vec.h
@@ -169,7 +169,10 @@ RingType<T, std::vector<T> &> ScaleBy(std::vector<T> &vector, const T &scalar) {
   auto n = vector.size();
   auto it = vector.begin();
 
-  while (n-- > 0) *(it++) *= scalar;
+  // copied because scalar may be an element of vector.
+  const T s = scalar;
+
+  while (n-- > 0) *(it++) *= s;
 
   return vector;
 }
-- 
2.43.0


From 8c931edfaaed5628cde9f5e4afa4e99e686c3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 16/17] fix: read field elements from unaligned buffers

Dereferencing a cast byte pointer is undefined unless it is aligned.
---
 src/frn/lib/math/fp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/fp.h b/src/frn/lib/math/fp.h
index f9f8929..4d6f550 100644
--- a/src/frn/lib/math/fp.h
+++ b/src/frn/lib/math/fp.h
@@ -39,7 +39,9 @@ class FpElement : RingElement<FpElement<Prime>> {
    *   <code>FpElement::byte_size()</code> bytes of memory.
    */
   static FpElement FromBytes(const unsigned char *buffer) {
-    return FpElement(*((ValueType *)buffer));
+    ValueType value;
+    std::memcpy(&value, buffer, ByteSize());
+    return FpElement(value);
   };
 
   /**
-- 
2.43.0


From e0bc99bad50ef0103d1d9483042e14e7463c3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 17/17] fix: deliver pending messages when closing an
 asynchronous channel

---
 src/frn/lib/net/channel.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..068743a 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -11,7 +11,10 @@ void frn::lib::net::AsyncSenderChannel::Open() {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       std::vector<unsigned char> buf = mSendQueue.Front();
-      if (mConnector->State() != Connector::State::eActive) break;
+      if (buf.empty()) {
+        mSendQueue.PopFront();
+        break;
+      }
       mConnector->Send(buf.data(), buf.size());
       mSendQueue.PopFront();
     }
@@ -20,15 +23,15 @@ void frn::lib::net::AsyncSenderChannel::Open() {
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
-  mSendQueue.PushBack({buffer, buffer + size});
+  // an empty message is used to signal that the channel is being closed.
+  if (size) mSendQueue.PushBack({buffer, buffer + size});
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
-  mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
+  // signal the async job that we're done by queueing an empty message after
+  // everything that was sent, and wait for the job to reach it. The connector
+  // is closed only once all pending messages have been written.
+  mSendQueue.PushBack(std::vector<unsigned char>());
   mSender.wait();
+  mConnector->Close();
 }
-- 
2.43.0

