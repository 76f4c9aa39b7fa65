From 1cbe12d5ca44b0602e24b83abb404eb03da89f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 01/21] fix: hash all eight bytes of a word, not only its first
 two

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From b1d32b222c20646fc7aa83e88ada1f78a6f5f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 02/21] fix: report an error when a connection ends in the
 middle of a receive

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..7e9789d 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -1,5 +1,7 @@
 #include "scl/net/tcp_channel.h"
 
+#include <stdexcept>
+
 #include "scl/net/tcp_utils.h"
 
 void scl::TcpChannel::Close() {
@@ -28,7 +30,7 @@ void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by peer");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
-- 
2.43.0


From 8a9658d7c42e73ad634532224ac461098e5823c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 03/21] fix: threaded sender delivers queued data before
 closing and closes on destruction

---
 .../include/scl/net/threaded_sender.h              | 10 ++++++++++
 .../src/scl/net/threaded_sender.cc                 | 14 ++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/secure-computation-library/include/scl/net/threaded_sender.h b/secure-computation-library/include/scl/net/threaded_sender.h
index 49b0437..a5ac2dd 100644
--- a/secure-computation-library/include/scl/net/threaded_sender.h
+++ b/secure-computation-library/include/scl/net/threaded_sender.h
@@ -47,9 +47,18 @@ class ThreadedSenderChannel final : public Channel {
    */
   ThreadedSenderChannel(int socket);
 
+  /**
+   * @brief Destroying a threaded sender channel closes the connection.
+   */
+  ~ThreadedSenderChannel();
+
+  /**
+   * @brief Send everything that is still queued and close the connection.
+   */
   void Close() override;
 
   void Send(const unsigned char* src, std::size_t n) override {
+    if (n == 0) return;
     mSendBuffer.PushBack({src, src + n});
   };
 
@@ -61,6 +70,7 @@ class ThreadedSenderChannel final : public Channel {
   TcpChannel mChannel;
   details::SharedDeque<std::vector<unsigned char>> mSendBuffer;
   std::future<void> mSender;
+  bool mClosed = false;
 };
 
 }  // namespace scl
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 4945fe4..2b1b5c3 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -7,7 +7,8 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       auto data = mSendBuffer.Peek();
-      if (!mChannel.Alive()) {
+      // an empty message is the stop signal sent by Close().
+      if (data.empty()) {
         break;
       }
       mChannel.Send(data.data(), data.size());
@@ -16,9 +17,14 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
   });
 }
 
+scl::ThreadedSenderChannel::~ThreadedSenderChannel() { Close(); }
+
 void scl::ThreadedSenderChannel::Close() {
-  mChannel.Close();
-  unsigned char stop_signal = 1;
-  Send(&stop_signal, 1);
+  if (mClosed) return;
+  mClosed = true;
+
+  // Let the sender finish what was handed to it before the socket is closed.
+  mSendBuffer.PushBack(std::vector<unsigned char>());
   mSender.wait();
+  mChannel.Close();
 }
-- 
2.43.0


From 6a9fc2726496eaeb0bcdf2b7047ab33a77464ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 04/21] fix: accepted connections of a threaded-sender network
 also send in the background

---
 secure-computation-library/src/scl/net/network.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..bb8c52d 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -9,6 +9,7 @@ static inline std::shared_ptr<scl::Channel> Self() {
   return scl::InMemoryChannel::CreateSelfConnecting();
 }
 
+template <typename ChannelT>
 static inline void AcceptConnections(
     std::vector<std::shared_ptr<scl::Channel>>& channels,
     const scl::NetworkConfig config) {
@@ -21,7 +22,7 @@ static inline void AcceptConnections(
     for (std::size_t i = config.Id() + 1; i < config.NetworkSize(); ++i) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
-          std::make_shared<scl::TcpChannel>(ac.socket);
+          std::make_shared<ChannelT>(ac.socket);
       unsigned id;
       channel->Recv(id);
       channels[id] = channel;
@@ -35,7 +36,8 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
+                     config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -59,7 +61,8 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
+                     std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
-- 
2.43.0


From ba35e58e2ada016b8bbff04f384303bbb2f9a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 05/21] fix: zero sharings of multiplication batches are not
 reused for input and output batches

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..b25c95f 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if (ctr < 2*mNMultBatches) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if (ctr < 3*mNMultBatches) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From 368d0aa45d2bbf778dcf7dadf6e1736e661fdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 06/21] fix: look parties of a network config up by id, not by
 position

---
 secure-computation-library/include/scl/net/config.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..caba3f8 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -128,7 +129,11 @@ class NetworkConfig {
   /**
    * @brief Get information about a party.
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    for (const auto& party : mParties)
+      if (party.id == id) return party;
+    throw std::invalid_argument("no such party in config");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From 2b55d24c28918416c8569f012b1aae7a9207608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 07/21] fix: refuse a config file that cannot be read
 completely or has an id that does not fit

---
 secure-computation-library/src/scl/net/config.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f795ceb..f3ffe53 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -25,12 +26,17 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     if (a == std::string::npos || b == std::string::npos)
       throw std::invalid_argument("invalid entry in config file");
 
-    auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
+    auto party_id = std::stoul(std::string(line.begin(), line.begin() + a));
+    if (party_id > std::numeric_limits<unsigned>::max())
+      throw std::invalid_argument("invalid ID in config");
+    auto id = (unsigned)party_id;
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
     auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
     info.emplace_back(Party{id, hostname, port});
   }
 
+  if (file.bad()) throw std::invalid_argument("could not read config file");
+
   ValidateIdAndSize(id, info.size());
 
   return NetworkConfig(id, info);
-- 
2.43.0


From 3896a67bb4dbc528f7841ce852f6e41427331246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 08/21] fix: discovery server refuses an id that is already
 taken

---
 secure-computation-library/src/scl/net/discovery/server.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..c4c7470 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -35,6 +35,8 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
   parties[my_id] = ctx.me;
+  std::vector<bool> taken(parties.size());
+  taken[my_id] = true;
 
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
@@ -43,6 +45,10 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
       if (id >= parties.size()) {
         throw std::logic_error("received invalid party ID");
       }
+      if (taken[id]) {
+        throw std::logic_error("received duplicate party ID");
+      }
+      taken[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From 18aaa01173a2076cc9fe166dd04a4fcd2b462ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 09/21] fix: discovery server closes its listening socket

---
 secure-computation-library/src/scl/net/discovery/server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index c4c7470..4fe7af2 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -25,6 +25,7 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
       hostnames.emplace_back(hostname);
     }
   }
+  scl::details::CloseSocket(ssock);
 
   Server::CollectIdsAndPorts discovery(hostnames);
   Server::Ctx ctx{me, scl::Network{channels}};
-- 
2.43.0


From b69a9ee4d76b3bd8ae8c07ab7d2f2aa777c7c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 10/21] fix: matrix size limit holds when rows times columns
 overflows

---
 secure-computation-library/include/scl/net/channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..d85446d 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -210,7 +210,7 @@ class Channel {
   void Recv(Mat<T>& mat) {
     auto rows = RecvSize();
     auto cols = RecvSize();
-    if (rows * cols > MAX_MAT_READ_SIZE)
+    if ((std::uint64_t)rows * cols > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
     auto n = rows * cols * T::ByteSize();
     auto buf = std::make_unique<unsigned char[]>(n);
-- 
2.43.0


From 56dc48d229da74d994b658f2b35d74233e8594bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 11/21] fix: DN07 with more than 2t+1 parties involves every
 party whose share is not fixed to zero

---
 src/tp/dn07.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tp/dn07.cc b/src/tp/dn07.cc
index a767271..dddac28 100644
--- a/src/tp/dn07.cc
+++ b/src/tp/dn07.cc
@@ -142,7 +142,7 @@ namespace tp {
   }
 
   void DN07::FDMultPartiesSendP1() {
-    if (mCircuit.mID >= mThreshold+1) {
+    if (mCircuit.mID >= mParties-mThreshold) {
     // The last t parties set their shares of the input gates
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
@@ -172,7 +172,7 @@ namespace tp {
 	if (mCircuit.mID == 0) {
 	  Vec shares_from_last;
 	  shares_from_last.Reserve(mThreshold);
-	  for (std::size_t i = mThreshold+1; i < mParties; ++i) {
+	  for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
 	    FF shr;
 	    mCircuit.mNetwork->Party(i)->Recv(shr);
 	    shares_from_last.Emplace(shr);
@@ -228,10 +228,10 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(shares_to_send[i]);
 	}
       }
@@ -239,8 +239,8 @@ namespace tp {
   }
 
   void DN07::InputPartiesReceive() {
-    // Only first t+1 need to receive and set this
-    if (mCircuit.mID < mThreshold+1) {
+    // Only first n-t need to receive and set this
+    if (mCircuit.mID < mParties-mThreshold) {
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
 	  FF share_of_masked;
@@ -258,7 +258,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesSendP1(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	// Send masked shares to P1
 	FF shr = mult_gate->GetLeft()->GetDn07Share() * mult_gate->GetRight()->GetDn07Share() \
@@ -274,7 +274,7 @@ namespace tp {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	Vec shares;
 	shares.Reserve(mParties);
-	for (std::size_t i = 0; i < mThreshold+1; ++i) {
+	for (std::size_t i = 0; i < mParties-mThreshold; ++i) {
 	  FF shr;
 	  mCircuit.mNetwork->Party(i)->Recv(shr);
 	  shares.Emplace(shr);
@@ -284,8 +284,8 @@ namespace tp {
 	Vec shares_from_last = mMapP1SharesFromLast.front();
 	mMapP1SharesFromLast.pop();
 
-	for (std::size_t i = mThreshold+1; i < mParties; ++i) {
-	  shares.Emplace(shares_from_last[i-(mThreshold+1)]);
+	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
+	  shares.Emplace(shares_from_last[i-(mParties-mThreshold)]);
 	}
 
 	FF secret = scl::details::SecretFromShares(shares);
@@ -306,8 +306,8 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	mP1SharesToSend.push(shares_to_send);
       }
     }
@@ -315,7 +315,7 @@ namespace tp {
   void DN07::MultP1SendsParties(std::size_t layer) {
     if (mCircuit.mID == 0) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(mP1SharesToSend.front()[i]);
 	}
 	mP1SharesToSend.pop();
@@ -324,7 +324,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesReceive(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 
 	FF masked;
-- 
2.43.0


From 14543a19d93c3de1897c5513ae4b1f0b42ecdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 12/21] fix: a background sender that cannot send ends the
 connection

---
 .../include/scl/net/tcp_channel.h             |  8 ++++++++
 .../include/scl/net/tcp_utils.h               |  5 +++++
 .../src/scl/net/tcp_channel.cc                |  2 ++
 .../src/scl/net/tcp_utils.cc                  |  4 ++++
 .../src/scl/net/threaded_sender.cc            | 20 ++++++++++++-------
 5 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/secure-computation-library/include/scl/net/tcp_channel.h b/secure-computation-library/include/scl/net/tcp_channel.h
index 3e597f3..b552f49 100644
--- a/secure-computation-library/include/scl/net/tcp_channel.h
+++ b/secure-computation-library/include/scl/net/tcp_channel.h
@@ -56,6 +56,14 @@ class TcpChannel final : public Channel {
   void Recv(unsigned char* dst, std::size_t n) override;
   void Close() override;
 
+  /**
+   * @brief Shut the connection down without releasing the socket.
+   *
+   * Pending and later calls to Recv, here and at the peer, report an error once
+   * the data that already arrived is consumed.
+   */
+  void Shutdown();
+
  private:
   bool mAlive;
   int mSocket;
diff --git a/secure-computation-library/include/scl/net/tcp_utils.h b/secure-computation-library/include/scl/net/tcp_utils.h
index 1efee67..115e064 100644
--- a/secure-computation-library/include/scl/net/tcp_utils.h
+++ b/secure-computation-library/include/scl/net/tcp_utils.h
@@ -84,6 +84,11 @@ int ConnectAsClient(std::string hostname, int port);
  */
 int CloseSocket(int socket);
 
+/**
+ * @brief Shut down both directions of a connection.
+ */
+int ShutdownSocket(int socket);
+
 /**
  * @brief Read from a socket.
  */
diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 7e9789d..f270294 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -12,6 +12,8 @@ void scl::TcpChannel::Close() {
   mAlive = false;
 }
 
+void scl::TcpChannel::Shutdown() { scl::details::ShutdownSocket(mSocket); }
+
 void scl::TcpChannel::Send(const unsigned char* src, std::size_t n) {
   std::size_t rem = n;
   std::size_t offset = 0;
diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index e138fa2..a1369e7 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -79,6 +79,10 @@ int scl::details::ConnectAsClient(std::string hostname, int port) {
 
 int scl::details::CloseSocket(int socket) { return ::close(socket); }
 
+int scl::details::ShutdownSocket(int socket) {
+  return ::shutdown(socket, SHUT_RDWR);
+}
+
 int scl::details::ReadFromSocket(int socket, unsigned char* dst,
                                  std::size_t n) {
   return ::read(socket, dst, n);
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 2b1b5c3..64292f1 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -5,14 +5,20 @@
 scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
     : mChannel(scl::TcpChannel(socket)) {
   mSender = std::async(std::launch::async, [&]() {
-    while (true) {
-      auto data = mSendBuffer.Peek();
-      // an empty message is the stop signal sent by Close().
-      if (data.empty()) {
-        break;
+    try {
+      while (true) {
+        auto data = mSendBuffer.Peek();
+        // an empty message is the stop signal sent by Close().
+        if (data.empty()) {
+          break;
+        }
+        mChannel.Send(data.data(), data.size());
+        mSendBuffer.PopFront();
       }
-      mChannel.Send(data.data(), data.size());
-      mSendBuffer.PopFront();
+    } catch (...) {
+      // What is still queued cannot be sent. Nobody waits for the exception, so
+      // end the connection to let both parties notice.
+      mChannel.Shutdown();
     }
   });
 }
-- 
2.43.0


From 1879c9dd105be9e4f5fa5f2e8cbe9f993ad8c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 13/21] fix: read a ring element from exactly its own bytes

---
 secure-computation-library/include/scl/math/z2k/details.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..d4ba6c3 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,9 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  // an element occupies (K - 1) / 8 + 1 bytes, at any alignment.
+  v = 0;
+  std::memcpy((unsigned char*)&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
-- 
2.43.0


From b32a14eda8985544fb17480e262e9afa8cd232b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 14/21] fix: ring elements of 64 and 128 bits keep their value

---
 secure-computation-library/include/scl/math/z2k/details.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index d4ba6c3..84ac28b 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (static_cast<T>(-1) >> (8 * sizeof(T) - (K)))
 
 /**
  * @brief Compute equality modulo a power of 2.
-- 
2.43.0


From c0728fb9f3e417715d201693468ed412bb7ce362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 15/21] fix: function-dependent preprocessing finishes however
 many batches there are

P1 answered each multiplication batch before it received the next one, while
the other parties send all their batches before they receive anything. Once
the batches exceed what the connections buffer, P1 and the other parties
all wait in send. P1 now receives all batches before it answers.
---
 src/tp/circuits/offline.cc | 10 ++++++++--
 src/tp/correlator.cc       | 15 ++++++++++++---
 src/tp/correlator.h        | 16 ++++++++++++++--
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/tp/circuits/offline.cc b/src/tp/circuits/offline.cc
index 312282d..6550e30 100644
--- a/src/tp/circuits/offline.cc
+++ b/src/tp/circuits/offline.cc
@@ -178,9 +178,15 @@ namespace tp {
       for (auto mult_layer : mMultLayers) {
 	for (auto mult_batch : mult_layer.mBatches) {
 	  (void) mult_batch;
-	  mCorrelator.PrepMultP1ReceivesAndSends();
+	  mCorrelator.PrepMultP1Receives();
 	}
-      }      
+      }
+      for (auto mult_layer : mMultLayers) {
+	for (auto mult_batch : mult_layer.mBatches) {
+	  (void) mult_batch;
+	  mCorrelator.PrepMultP1Sends();
+	}
+      }
     }
     void Circuit::PrepMultPartiesReceive() {
       for (auto mult_layer : mMultLayers) {
diff --git a/src/tp/correlator.cc b/src/tp/correlator.cc
index fb5d8bb..4d447b9 100644
--- a/src/tp/correlator.cc
+++ b/src/tp/correlator.cc
@@ -101,7 +101,7 @@ namespace tp {
     mNetwork->Party(0)->Send(shr_lambdaB_p_R);
   }
     
-  void Correlator::PrepMultP1ReceivesAndSends() {
+  void Correlator::PrepMultP1Receives() {
     if (mID == 0) {
       Vec recv_shares_A;
       Vec recv_secret_A;
@@ -126,8 +126,17 @@ namespace tp {
       // P1 generates new shares
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(recv_secret_A, mBatchSize-1, mPRG);
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(recv_secret_B, mBatchSize-1, mPRG);
-      Vec new_shares_A = scl::details::SharesFromEvPoly(poly_A, mParties);
-      Vec new_shares_B = scl::details::SharesFromEvPoly(poly_B, mParties);
+      mP1SharesToSend.push(scl::details::SharesFromEvPoly(poly_A, mParties));
+      mP1SharesToSend.push(scl::details::SharesFromEvPoly(poly_B, mParties));
+    }
+  }
+
+  void Correlator::PrepMultP1Sends() {
+    if (mID == 0) {
+      Vec new_shares_A = mP1SharesToSend.front();
+      mP1SharesToSend.pop();
+      Vec new_shares_B = mP1SharesToSend.front();
+      mP1SharesToSend.pop();
 
       // P1 sends
       for (std::size_t i = 0; i < mParties; ++i) {
diff --git a/src/tp/correlator.h b/src/tp/correlator.h
index f96eff9..a415a74 100644
--- a/src/tp/correlator.h
+++ b/src/tp/correlator.h
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <map>
+#include <queue>
 #include <assert.h>
 
 #include "tp.h"
@@ -162,7 +163,17 @@ namespace tp {
     // PREP MULT BATCH
     void PrepMultPartiesSendP1(std::shared_ptr<MultBatch> mult_batch);
     
-    void PrepMultP1ReceivesAndSends();
+    // P1 receives the shares of one batch, and sends the new shares of
+    // the earliest batch it has received but not yet answered.
+    // Parties may send the shares of all batches before they receive
+    // anything, so P1 has to receive all batches before it sends.
+    void PrepMultP1Receives();
+    void PrepMultP1Sends();
+
+    void PrepMultP1ReceivesAndSends() {
+      PrepMultP1Receives();
+      PrepMultP1Sends();
+    }
 
     void PrepMultPartiesReceive(std::shared_ptr<MultBatch> mult_batch);
 
@@ -235,7 +246,8 @@ namespace tp {
     std::vector<std::vector<FF>> mUnpackedShrsMask; // idx = packed index
     std::vector<std::vector<FF>> mZeroProdShrs; // idx = packed index
 
-    
+    // New shares that P1 has yet to send when preparing mult batches
+    std::queue<Vec> mP1SharesToSend; // A, B of each batch
 
     // NETWORK-RELATED
     std::shared_ptr<scl::Network> mNetwork;
-- 
2.43.0


From 80a3774318f07aecc09516bbe3447bba15ff2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 16/21] fix: evaluate dummy multiplication preprocessing at the
 parties' points

MultBatch::PrepFromDummyLambdas evaluated its polynomials at the party's
index, while every other sharing of party i is the value at i + 1. With
masks that differ within a batch the online phase computed wrong values.
---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..3b828ff 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID + 1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID + 1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID + 1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From 8e60a7ad0bdc58d3189a320ed0d9d0f174f2f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 17/21] fix: refuse numbers of a party table with anything
 behind them, and impossible ports

"1x" was read as 1, and a port beyond 65535 was cut to 16 bits when
connecting, possibly to another party's.
---
 .../src/scl/net/config.cc                     | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f3ffe53..6c5bfa9 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -1,5 +1,6 @@
 #include "scl/net/config.h"
 
+#include <cstdint>
 #include <fstream>
 #include <iostream>
 #include <limits>
@@ -11,6 +12,17 @@ static inline void ValidateIdAndSize(unsigned id, std::size_t n) {
   if (n <= id) throw std::invalid_argument("invalid id");
 }
 
+// Parses a number that makes up a whole field (blanks around it aside).
+static inline unsigned long ParseNumber(const std::string& field,
+                                        unsigned long max) {
+  std::size_t end = 0;
+  auto number = std::stoul(field, &end);
+  if (field.find_first_not_of(" \t\r", end) != std::string::npos ||
+      number > max)
+    throw std::invalid_argument("invalid number in config file");
+  return number;
+}
+
 scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
   std::ifstream file(filename);
 
@@ -26,12 +38,11 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     if (a == std::string::npos || b == std::string::npos)
       throw std::invalid_argument("invalid entry in config file");
 
-    auto party_id = std::stoul(std::string(line.begin(), line.begin() + a));
-    if (party_id > std::numeric_limits<unsigned>::max())
-      throw std::invalid_argument("invalid ID in config");
-    auto id = (unsigned)party_id;
+    auto id = (unsigned)ParseNumber(std::string(line.begin(), line.begin() + a),
+                                    std::numeric_limits<unsigned>::max());
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
-    auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
+    auto port = (int)ParseNumber(std::string(line.begin() + b + 1, line.end()),
+                                 std::numeric_limits<std::uint16_t>::max());
     info.emplace_back(Party{id, hostname, port});
   }
 
-- 
2.43.0


From 5b09ade43b32c350452200c9a0ddc5d0818709a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 18/21] fix: padding gates owned themselves, so circuits and
 their networks were never destroyed

---
 src/tp/mult_gate.h   | 4 +++-
 src/tp/output_gate.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 3b828ff..881d136 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -237,7 +237,9 @@ namespace tp {
     // Pads the current batch if necessary
     void Close() {
       auto padding_gate = std::make_shared<PadMultGate>();
-      padding_gate->UpdateParents(padding_gate, padding_gate);
+      // A parent of itself that does not own itself: it would never be destroyed
+      std::shared_ptr<Gate> parent(std::shared_ptr<Gate>(), padding_gate.get());
+      padding_gate->UpdateParents(parent, parent);
 
       assert(padding_gate->GetMu() == FF(0));
       assert(padding_gate->GetLeft()->GetMu() == FF(0));
diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..03919d9 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -252,7 +252,9 @@ namespace tp {
     // Pads the current batch if necessary
     void Close() {
       auto padding_gate = std::make_shared<PadOutputGate>(mOwnerID);
-      padding_gate->UpdateParent(padding_gate);
+      // A parent of itself that does not own itself: it would never be destroyed
+      std::shared_ptr<Gate> parent(std::shared_ptr<Gate>(), padding_gate.get());
+      padding_gate->UpdateParent(parent);
       assert(padding_gate->GetMu() == FF(0));
 
       auto last_batch = mBatches.back(); // accessing last elt
-- 
2.43.0


From 625e0a79a7d91381a79b025c3d7618f66a3e16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 19/21] fix: network set-up refuses a peer that announces an
 impossible or taken id

---
 secure-computation-library/src/scl/net/network.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index bb8c52d..614eab3 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -1,5 +1,6 @@
 #include "scl/net/network.h"
 
+#include <stdexcept>
 #include <thread>
 
 #include "scl/net/tcp_utils.h"
@@ -25,6 +26,9 @@ static inline void AcceptConnections(
           std::make_shared<ChannelT>(ac.socket);
       unsigned id;
       channel->Recv(id);
+      if (id <= my_id || id >= config.NetworkSize() || channels[id]) {
+        throw std::runtime_error("received unexpected party ID");
+      }
       channels[id] = channel;
     }
     scl::details::CloseSocket(ssock);
-- 
2.43.0


From acce4f321ca52ca3d5737480174f5a677a735b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 20/21] fix: discovery client refuses a table with impossible
 or repeated ids

---
 secure-computation-library/src/scl/net/discovery/client.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..ea264ab 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -1,6 +1,7 @@
 #include "scl/net/discovery/client.h"
 
 #include <memory>
+#include <stdexcept>
 
 #include "scl/net/tcp_utils.h"
 
@@ -36,12 +37,17 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
   ctx->Recv(number_of_parties);
 
   std::vector<scl::Party> parties(number_of_parties);
+  std::vector<bool> taken(number_of_parties);
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
+    if (party.id >= number_of_parties || taken[party.id]) {
+      throw std::logic_error("received invalid party ID");
+    }
+    taken[party.id] = true;
     parties[party.id] = party;
   }
 
-- 
2.43.0


From 0b9360cde66666dd96768274d23b38f4342de10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 21/21] fix: time phases with a clock that is never set

---
 experiments/misc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/misc.h b/experiments/misc.h
index d841c8a..43c9bb9 100644
--- a/experiments/misc.h
+++ b/experiments/misc.h
@@ -1,10 +1,10 @@
 #define QUOTE(x) #x
 
 #define START_TIMER(name) \
-  auto start##name = std::chrono::high_resolution_clock::now()
+  auto start##name = std::chrono::steady_clock::now()
 
 #define STOP_TIMER(name)                                                       \
-  auto stop##name = std::chrono::high_resolution_clock::now();                 \
+  auto stop##name = std::chrono::steady_clock::now();                          \
   auto duration##name = std::chrono::duration_cast<std::chrono::microseconds>( \
       stop##name - start##name);                                               \
   std::cout << QUOTE(name) << ": " << duration##name.count() << " us\n"
-- 
2.43.0

