From 2364d05de89090c984dbb642f0cdbe0df776b6f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 01/16] fix: absorb all eight bytes of each word in
 Hash::Update

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From c1634c3a468d71768ecbde5e9947a5c3ad8e05ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 02/16] fix: do not hand zero shares used by multiplications to
 IO batches

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..b25c95f 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if (ctr < 2*mNMultBatches) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if (ctr < 3*mNMultBatches) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From e0b65c032193874004e2fd405ddddcc52bbdb536 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 03/16] fix: OutputGate::GetIndvShrLambda returns the
 individual share

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From 34575ffb59c4d09f9490b3fb0d6a22a0889a3149 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 04/16] fix: evaluate packed dummy sharings at the share point
 of the party

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..a36dd22 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From 1b5b91848613c9ab1874abb42c89c587a063d28b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 05/16] fix: compute the Z2k mask without shifting by the full
 width

---
 secure-computation-library/include/scl/math/z2k/details.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..4764675 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (static_cast<T>(~static_cast<T>(0)) >> (8 * sizeof(T) - K))
 
 /**
  * @brief Compute equality modulo a power of 2.
-- 
2.43.0


From bb42b0777e3d03d6aed546b067da24d01c2a68b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 06/16] fix: read only ByteSize() bytes of a serialized Z2k
 element

---
 secure-computation-library/include/scl/math/z2k/details.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 4764675..685cad4 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,8 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  v = 0;
+  std::memcpy(&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
-- 
2.43.0


From 3e8a60470efb259e5f2026197986d4cda802698f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 07/16] fix: check the size of a received matrix without 32-bit
 wrap-around

---
 secure-computation-library/include/scl/net/channel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..9974116 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -208,8 +208,8 @@ class Channel {
    */
   template <typename T>
   void Recv(Mat<T>& mat) {
-    auto rows = RecvSize();
-    auto cols = RecvSize();
+    std::size_t rows = RecvSize();
+    std::size_t cols = RecvSize();
     if (rows * cols > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
     auto n = rows * cols * T::ByteSize();
-- 
2.43.0


From 4b74805e3d5d8ae9b3e9bc3cd9a111abf473e217 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 08/16] fix: reduce field elements read from strings

---
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 1 +
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index ba81252..e90c7db 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -28,6 +28,7 @@ void _::Invert(u128 &t) {
 void _::FromString(u128 &dest, const std::string &str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 struct u256 {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index e5a3c95..f0c9096 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -29,6 +29,7 @@ void _::Invert(u64& t) {
 void _::FromString(u64& dest, const std::string& str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 void _::Multiply(u64& t, const u64& v) {
-- 
2.43.0


From bbcc3e0d7947260c73152beef03b05aebe5a424d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 09/16] fix: decide uniqueness of a linear system by its rank

---
 .../include/scl/math/la.h                     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/secure-computation-library/include/scl/math/la.h b/secure-computation-library/include/scl/math/la.h
index fceb288..c871465 100644
--- a/secure-computation-library/include/scl/math/la.h
+++ b/secure-computation-library/include/scl/math/la.h
@@ -168,9 +168,9 @@ Vec<T> ExtractSolution(const Mat<T>& A) {
 
   Vec<T> x(m - 1);
   auto i = FindFirstNonZeroRow(A);
-  // we remove (n - i) rows, which means setting the corresponding variables to
-  // 0.
-  int c = m - 2 - (n - i - 1);
+  // only the first i + 1 rows are non-zero; the variables beyond those are set
+  // to 0.
+  int c = i;
   for (; c >= 0; c--) {
     const auto p = GetPivotInColumn(A, c);
     if (p == -1) {
@@ -178,7 +178,7 @@ Vec<T> ExtractSolution(const Mat<T>& A) {
       x[c] = T{1};
     } else {
       T sum;
-      for (std::size_t j = p + 1; j < n; ++j) sum += A(i, j) * x[j];
+      for (std::size_t j = p + 1; j < m - 1; ++j) sum += A(i, j) * x[j];
       x[c] = A(i, m - 1) - sum;
       i--;
     }
@@ -202,6 +202,7 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
   auto n = A.Rows();
   auto m = A.Cols();
   T zero;
+  std::size_t rank = 0;
   for (std::size_t i = 0; i < n; ++i) {
     bool all_zero = true;
     for (std::size_t j = 0; j < m - 1; ++j) {
@@ -210,13 +211,15 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
     // No solution is the case when Rank(A) != Rank(A') where A' is A without
     // the last column (the augmentation). I.e., when row(A', i) == 0, but
     // row(A, i) != 0.
-    if (unique_only) {
-      if (all_zero) return false;
+    if (all_zero) {
+      if (A(i, m - 1) != zero) return false;
     } else {
-      if (all_zero && A(i, m - 1) != zero) return false;
+      rank++;
     }
   }
-  return true;
+  // A consistent system has exactly one solution when Rank(A) is the number of
+  // unknowns.
+  return !unique_only || rank == m - 1;
 }
 
 /**
-- 
2.43.0


From 2c13e3195649d9766bc5b0e4c38e251aa33c2dab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 10/16] fix: reject more packed secrets than the degree allows

---
 secure-computation-library/include/scl/ss/packed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..e6f7cde 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,9 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (secrets.Size() > degree + 1)
+	throw std::invalid_argument("number of secrets is larger than degree + 1");
+
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From 4fe0708aa95487919d15ae8ed86a182d68dd2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 11/16] fix: look up the party of a NetworkConfig by its id

---
 secure-computation-library/include/scl/net/config.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..24fa856 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -128,7 +129,12 @@ class NetworkConfig {
   /**
    * @brief Get information about a party.
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    for (const auto& party : mParties) {
+      if (party.id == id) return party;
+    }
+    throw std::invalid_argument("no party with that id");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From 1060612020ee3f7efa76b3a0d1c42d6e22896780 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 12/16] fix: reject network config entries with a single comma

---
 secure-computation-library/src/scl/net/config.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f795ceb..bc0708a 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -22,7 +22,7 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     auto a = line.find(',');
     auto b = line.rfind(',');
 
-    if (a == std::string::npos || b == std::string::npos)
+    if (a == std::string::npos || a == b)
       throw std::invalid_argument("invalid entry in config file");
 
     auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
-- 
2.43.0


From 338be69d005279a77db67ec504db146806c2fe77 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 13/16] fix: discovery client checks the party ids it receives

---
 secure-computation-library/src/scl/net/discovery/client.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..a68f327 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -39,6 +39,9 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
+    if (party.id >= number_of_parties) {
+      throw std::logic_error("received invalid party ID");
+    }
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
-- 
2.43.0


From d904ebcf8e9c967c29591b049babc4eeaa38379e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 14/16] fix: discovery server rejects duplicate party ids

---
 secure-computation-library/src/scl/net/discovery/server.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..6b59ec2 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -35,6 +35,8 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
   parties[my_id] = ctx.me;
+  std::vector<bool> seen(mHostnames.size());
+  seen[my_id] = true;
 
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
@@ -43,6 +45,10 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
       if (id >= parties.size()) {
         throw std::logic_error("received invalid party ID");
       }
+      if (seen[id]) {
+        throw std::logic_error("received duplicate party ID");
+      }
+      seen[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From f62ec41a0041aa15de58472c7be3983c49340557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 15/16] fix: discovery client rejects duplicate party ids

---
 secure-computation-library/src/scl/net/discovery/client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index a68f327..23d372f 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -36,12 +36,17 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
   ctx->Recv(number_of_parties);
 
   std::vector<scl::Party> parties(number_of_parties);
+  std::vector<bool> seen(number_of_parties);
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
     if (party.id >= number_of_parties) {
       throw std::logic_error("received invalid party ID");
     }
+    if (seen[party.id]) {
+      throw std::logic_error("received duplicate party ID");
+    }
+    seen[party.id] = true;
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
-- 
2.43.0


From 05c5e65dde02f26c862177ece60c9b048cf9f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:05 +0000
Subject: [PATCH 16/16] fix: ScalarMultiplyInPlace by an entry of the receiver
 itself

---
 secure-computation-library/include/scl/math/mat.h | 4 +++-
 secure-computation-library/include/scl/math/vec.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/mat.h b/secure-computation-library/include/scl/math/mat.h
index 0ba5ca8..30f61cf 100644
--- a/secure-computation-library/include/scl/math/mat.h
+++ b/secure-computation-library/include/scl/math/mat.h
@@ -259,7 +259,9 @@ class Mat {
    * @return this scaled by \p scalar.
    */
   Mat& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    // scalar may be a reference to one of the entries.
+    const T s = scalar;
+    for (auto& v : mValues) v *= s;
     return *this;
   };
 
diff --git a/secure-computation-library/include/scl/math/vec.h b/secure-computation-library/include/scl/math/vec.h
index 213090a..c26d2a8 100644
--- a/secure-computation-library/include/scl/math/vec.h
+++ b/secure-computation-library/include/scl/math/vec.h
@@ -257,7 +257,9 @@ class Vec {
    * @return a scaled version of this vector.
    */
   Vec& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    // scalar may be a reference to one of the entries.
+    const T s = scalar;
+    for (auto& v : mValues) v *= s;
     return *this;
   };
 
-- 
2.43.0

