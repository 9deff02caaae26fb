From 757ddfed27d7acbb09b1dcabaa03e3efcf5b5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:44 +0000
Subject: [PATCH 01/21] fix: CFBSink::finalize encrypts the partial last block
 in bounds

finalize() always xored eight bytes, writing past the end of a shorter tail,
and used the halves of the gamma in the opposite order to write() and to the
decrypting side.
---
 goost/gost89/CFBSink.cpp | 10 +++++++---
 goost/magma/CFBSink.cpp  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..be0f327 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,13 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < 4; i++) {
+			if (c.size() > 0 + i) {
+				c[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
+			}
+			if (c.size() > 4 + i) {
+				c[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
+			}
 		}
 		s = s->write(c);
 	}
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..37df205 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,13 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < 4; i++) {
+			if (c.size() > 0 + i) {
+				c[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
+			}
+			if (c.size() > 4 + i) {
+				c[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
+			}
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 8399783e17c7fb71ca42703d6fa8b972595f2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:45 +0000
Subject: [PATCH 02/21] fix: CFBSource stays inside a partial last block

A last block shorter than eight bytes was copied into the register with its
size rounded up, and one byte too many was xored with the gamma.
---
 goost/gost89/CFBSource.cpp | 6 +++---
 goost/magma/CFBSource.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..336e7fa 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,13 +61,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From f247daeadf9be5fe6c7fe3ee90b55309f3a44c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:46 +0000
Subject: [PATCH 03/21] fix: CFBSource gathers whole blocks from a source that
 reads short

A source may return fewer bytes than asked for. Each short answer was taken
for a whole block, which desynchronised the register.
---
 goost/gost89/CFBSource.cpp | 10 +++++++++-
 goost/magma/CFBSource.cpp  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..55d296b 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -53,7 +53,15 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 
-		tie(p, s) = s->read(8);
+		tie(p, s) = s->read(Block::size);
+		while (!p.empty() && p.size() < Block::size) {
+			const auto [c, n] = s->read(Block::size - p.size());
+			s = n;
+			if (c.empty()) {
+				break;
+			}
+			p.insert(p.end(), c.begin(), c.end());
+		}
 		if (p.empty()) {
 			break;
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 336e7fa..f53a1d0 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -55,7 +55,15 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 
-		tie(p, s) = s->read(8);
+		tie(p, s) = s->read(Block::size);
+		while (!p.empty() && p.size() < Block::size) {
+			const auto [c, n] = s->read(Block::size - p.size());
+			s = n;
+			if (c.empty()) {
+				break;
+			}
+			p.insert(p.end(), c.begin(), c.end());
+		}
 		if (p.empty()) {
 			break;
 		}
-- 
2.43.0


From ada3e2fc278578e072743a209fbf1c5adf460a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:47 +0000
Subject: [PATCH 04/21] fix: ECBSource gathers whole blocks and refuses a
 truncated one

A short read was decrypted as if it were a whole block, reading and writing
past its end. At the end of data the underlying ciphertext source was
returned, so a later read gave undecrypted bytes.
---
 goost/magma/ECBSource.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..8b16e6e 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -5,6 +5,7 @@
 
 #include "ECBSource.h"
 #include <cstring>
+#include <stdexcept>
 #include <netinet/in.h>
 #include "Container.h"
 #include "BlkDecrypted.h"
@@ -40,10 +41,20 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	auto s = source;
 	vector<byte> p;
-	tie(p, s) = s->read(8);
+	while (p.size() < Block::size) {
+		const auto [c, n] = s->read(Block::size - p.size());
+		s = n;
+		if (c.empty()) {
+			break;
+		}
+		p.insert(p.end(), c.begin(), c.end());
+	}
 	if (p.empty()) {
 		// Decryption is done
-		return {p, s};
+		return {p, make_shared<ECBSource>(s, key)};
+	}
+	if (p.size() < Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
 	}
 
 	const auto e = BlkDecrypted(
-- 
2.43.0


From fc695583d5bf7caeb5a69b074ec1442c7c99cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:49 +0000
Subject: [PATCH 05/21] fix: magma::Imit gathers whole blocks from a source
 that reads short

The first short read was taken for the end of the message, so the MAC did not
cover the rest of it.
---
 goost/magma/Imit.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..23872d3 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -71,6 +71,25 @@ pair<uint32_t, uint32_t> BlkImitFinalKey::value() const
 }
 
 
+namespace {
+
+// Source may return less than asked, only the last block may be partial
+pair<vector<byte>, shared_ptr<const goost::Source>> readBlock(shared_ptr<const goost::Source> s)
+{
+	vector<byte> b;
+	while (b.size() < Block::size) {
+		const auto [c, n] = s->read(Block::size - b.size());
+		s = n;
+		if (c.empty()) {
+			break;
+		}
+		b.insert(b.end(), c.begin(), c.end());
+	}
+	return {b, s};
+}
+
+}  // namespace
+
 Imit::Imit(const shared_ptr<const Source> &data, const shared_ptr<const LazyKey> &key)
 	: data(data), key(key)
 {
@@ -83,7 +102,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 	auto s = data;
 
 	vector<byte> b;
-	tie(b, s) = s->read(Block::size);
+	tie(b, s) = readBlock(s);
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
@@ -92,7 +111,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.size() < Block::size) {
 			break;
 		}
-		tie(b, s) = s->read(Block::size);
+		tie(b, s) = readBlock(s);
 		if (b.empty()) {
 			break;
 		}
-- 
2.43.0


From ac0de87a14d778b19c227be9a4d60a04d95122e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:50 +0000
Subject: [PATCH 06/21] fix: magma::Imit does not chain lazy blocks through the
 whole message

Evaluating and destroying the chain recursed once per block and overflowed
the stack on long messages.
---
 goost/magma/Imit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 23872d3..c429cba 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -115,7 +115,8 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		// Block is stored by value, chain should not grow with message
+		block = make_shared<BlkRaw>(BlkEncrypted(block, key).value());
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From 67007609c5ba525bbe29519dd07c0218a4a9d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:51 +0000
Subject: [PATCH 07/21] fix: kuznyechik::Imit does not chain lazy blocks
 through the whole message

Evaluating and destroying the chain recursed once per block and overflowed
the stack on long messages.
---
 goost/kuznyechik/Imit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..c69f346 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,10 +54,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
+		// Block is stored by value, chain should not grow with message
+		block = make_shared<const BlkRaw>(BlkEncrypted(
 			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
 			key
-		);
+		).value());
 		iter = iter->next();
 	}
 
-- 
2.43.0


From cb5acc47a969eb938246aacc7bac3e446aac2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 08/21] fix: StCTREncrypted does not chain lazy counters
 through the whole stream

The counter of block n was n nested increments, which overflowed the stack on
long streams (and took quadratic time).
---
 goost/kuznyechik/StCTREncrypted.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..21838a9 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,12 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	// Counter is stored by value, chain should not grow with stream
+	return make_shared<ItCTREncrypted>(
+		iter->next(),
+		key,
+		make_shared<BlkRaw>(BlkIncremented(ctr).value())
+	);
 }
 
 StCTREncrypted::StCTREncrypted(
-- 
2.43.0


From ad8df1f6f2795cf389fef265029092db9e168ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 09/21] fix: StMemory iterators keep their stream alive

The iterator held a weak reference and dereferenced null once the stream had
no other owner.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..42935b7 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		const shared_ptr<const Block> &data
 	);
@@ -26,7 +26,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
 };
@@ -35,7 +35,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	const shared_ptr<const Block> &data
 ) : stream(stream), offset(offset), data(data)
@@ -59,8 +59,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From a76c67899693067fff308450ebb011f805412ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:53 +0000
Subject: [PATCH 10/21] fix: StMemory over an odd number of words does not read
 past its end

The last word was presented as a full block whose high half came from beyond
the vector; it is an 8-byte partial block.
---
 goost/kuznyechik/StMemory.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 42935b7..a0cdad0 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -18,7 +18,8 @@ public:
 	ItMemory(
 		const shared_ptr<const StMemory> &stream,
 		size_t offset,
-		const shared_ptr<const Block> &data
+		const shared_ptr<const Block> &data,
+		size_t data_size
 	);
 
 	pair<uint64_t, uint64_t> value() const override;
@@ -29,6 +30,7 @@ private:
 	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
+	const size_t data_size;
 };
 
 }  // namespace kuznyechik
@@ -37,8 +39,9 @@ private:
 ItMemory::ItMemory(
 	const shared_ptr<const StMemory> &stream,
 	size_t offset,
-	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+	const shared_ptr<const Block> &data,
+	size_t data_size
+) : stream(stream), offset(offset), data(data), data_size(data_size)
 {
 }
 
@@ -54,7 +57,7 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return data_size;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
@@ -77,9 +80,18 @@ shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 	if (data.size() <= offset / sizeof(uint64_t)) {
 		return {};
 	}
+	if (data.size() - offset / sizeof(uint64_t) < 2) {
+		return make_shared<const ItMemory>(
+			shared_from_this(),
+			offset,
+			make_shared<BlkRaw>(data.back()),
+			sizeof(uint64_t)
+		);
+	}
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
-		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
+		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)]),
+		Block::size
 	);
 }
-- 
2.43.0


From b4736a5ab83741e1b8bada0088d151df74133490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 11/21] fix: BlkCached can be shared between threads

Reading a const block wrote the cache without synchronisation, so two threads
using one key raced and could see a half-written round key.
---
 goost/kuznyechik/BlkCached.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..6ee97d0 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -11,12 +12,13 @@ using namespace goost::kuznyechik;
 class BlkCached::BlockCache final {
 public:
 	explicit BlockCache(const shared_ptr<const Block> &block)
-		: loaded(false), state(), block(block)
+		: guard(), loaded(false), state(), block(block)
 	{
 	}
 
 	pair<uint64_t, uint64_t> value()
 	{
+		const lock_guard<mutex> lock(guard);
 		if (!loaded) {
 			state = block->value();
 			loaded = true;
@@ -24,6 +26,7 @@ public:
 		return state;
 	}
 private:
+	mutex guard;
 	bool loaded;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
-- 
2.43.0


From 9ef57b206ecd1c21fd3cd578123162370932b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 12/21] fix: KeyCachedData can be shared between threads

Reading a const key wrote the cache without synchronisation, so two threads
using one key raced and could mix words of different loads.
---
 goost/magma/KeyCachedData.cpp | 3 ++-
 goost/magma/KeyCachedData.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..e88df09 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -9,12 +9,13 @@ using namespace std;
 using namespace goost::magma;
 
 KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
-	: cache(make_unique<CachedData>()), keydata(move(keydata))
+	: cache(make_unique<CachedData>()), keydata(move(keydata)), guard()
 {
 }
 
 uint32_t KeyCachedData::key(int index) const
 {
+	const lock_guard<mutex> lock(guard);
 	if (!cache->cached) {
 		for (size_t i = 0; i < cache->key.size(); i++) {
 			cache->key[i] = keydata->key(i);
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..5a4dd33 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -5,7 +5,9 @@
 
 #pragma once
 #include "KeyData.h"
+#include <array>
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -21,6 +23,7 @@ private:
 	};
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
+	mutable std::mutex guard;
 };
 
 }  // namespace magma
-- 
2.43.0


From 3f74ba8833645b582444380686c49ebc2a91b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:56 +0000
Subject: [PATCH 13/21] fix: ECBSource refuses a container with a key or sbox
 of wrong size

A longer one overflowed the heap buffer and a shorter one was silently
extended with zeros.
---
 goost/magma/ECBSource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 8b16e6e..0c73648 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -72,6 +72,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 	vector<uint32_t> key(8);
 	// @todo need to use mask
 	const auto ik = container->key();
+	if (ik.size() != key.size() * sizeof(key[0])) {
+		throw runtime_error("Wrong container key size");
+	}
 	memcpy(&key[0], &ik[0], ik.size());
 	for (auto &k : key) {
 		k = htonl(k);
@@ -79,6 +82,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 
 	vector<uint8_t> sbox(64);
 	const auto is = container->sbox();
+	if (is.size() != sbox.size()) {
+		throw runtime_error("Wrong container sbox size");
+	}
 	memcpy(&sbox[0], &is[0], is.size());
 
 	return make_shared<LazyKey>(key, make_shared<SboxTwisted>(make_unique<SboxByte>(sbox)));
-- 
2.43.0


From 612e4c8057890c5bf117fa4d62d275618cf240c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:56 +0000
Subject: [PATCH 14/21] fix: magma::KeyDataNative refuses a key of fewer than
 eight words

A shorter vector was read out of bounds. The checks are those KeyDataString
already makes.
---
 goost/magma/KeyDataNative.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..ae8dbe9 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataNative.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,5 +16,11 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
+	if (key_data.size() < 8) {
+		throw runtime_error("Wrong key size");
+	}
+	if (index < 0 || index > 7) {
+		throw runtime_error("Wrong key index");
+	}
 	return key_data[index];
 }
-- 
2.43.0


From 5d8b14d189309e753aec4580dfa00c5dc639456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:57 +0000
Subject: [PATCH 15/21] fix: key text that is not 64 hexadecimal digits is
 refused

A damaged digit silently produced a different (mostly zero) key, and
Kuznyechik key text of another length was accepted.
---
 goost/kuznyechik/KeyDataString.cpp | 9 +++++++++
 goost/magma/KeyDataString.cpp      | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..10e1f79 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,9 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <algorithm>
+#include <cctype>
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -13,6 +16,12 @@ using namespace goost::kuznyechik;
 KeyDataString::KeyDataString(const string &key_data)
 	: key_data(key_data)
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
+	if (!all_of(key_data.begin(), key_data.end(), [](unsigned char c){ return isxdigit(c); })) {
+		throw runtime_error("Wrong key digit");
+	}
 }
 
 shared_ptr<const Block> KeyDataString::low() const
diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..b790450 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -4,6 +4,8 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <algorithm>
+#include <cctype>
 #include <sstream>
 #include <stdexcept>
 
@@ -20,6 +22,9 @@ uint32_t KeyDataString::key(int index) const
 	if (key_data.size() != 64) {
 		throw runtime_error("Wrong key size");
 	}
+	if (!all_of(key_data.begin(), key_data.end(), [](unsigned char c){ return isxdigit(c); })) {
+		throw runtime_error("Wrong key digit");
+	}
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
-- 
2.43.0


From 1b0961052a596c973a4b9295b9070d25ee727588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 16/21] fix: CFB streams and ECBSource accept any Key

They cast the magma::Key they were given to LazyKey and dereferenced the
null result, so a user-written Key crashed on first use.  The block
transformations only need the Key interface.
---
 goost/gost89/CFBSink.cpp      | 5 ++---
 goost/gost89/CFBSource.cpp    | 3 +--
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 5 ++---
 goost/magma/CFBSource.cpp     | 3 +--
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 14 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index be0f327..0468756 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -10,7 +10,6 @@
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
 #include <goost/magma/Block.h>
-#include <goost/magma/LazyKey.h>
 
 using namespace std;
 using namespace goost;
@@ -44,7 +43,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +66,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < 4; i++) {
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 55d296b..4a49486 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -7,7 +7,6 @@
 #include <cstring>
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
-#include <goost/magma/LazyKey.h>
 
 using namespace std;
 using namespace goost;
@@ -50,7 +49,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(Block::size);
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 37df205..2a054dd 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -8,7 +8,6 @@
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "Block.h"
-#include "LazyKey.h"
 
 using namespace std;
 using namespace goost;
@@ -44,7 +43,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < 4; i++) {
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index f53a1d0..e852c4b 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -7,7 +7,6 @@
 #include <cstring>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
 
 using namespace std;
 using namespace goost;
@@ -52,7 +51,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(Block::size);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 0c73648..b08d575 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -59,7 +59,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index c429cba..13b0ddd 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
-- 
2.43.0


From 804ed981e369d784a0791faca85daa9961f0b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 17/21] fix: magma::BlkShifted shifts by the width of its
 32-bit words

A shift of a 32-bit word by 64 - n is undefined; where the compiler sees both
sides (clang with -flto) the MAC of magma::Imit comes out wrong.
---
 goost/magma/BlkShifted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..83220ac 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,5 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	return {value.first << n, value.second << n | value.first >> (32 - n)};
 }
-- 
2.43.0


From 15f4ae787122ec458c4fa59084448acc3e669469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:01 +0000
Subject: [PATCH 18/21] fix: CFBSink encrypts pending bytes of a whole block
 and more

The public constructors take any number of pending bytes; eight or more were
never encrypted and came out of finalize() in the clear after the first block.
---
 goost/gost89/CFBSink.cpp | 9 +++++++--
 goost/magma/CFBSink.cpp  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 0468756..3f1e1dc 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -36,9 +36,11 @@ CFBSink::CFBSink(
 shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 {
 	auto s = sink;
-	auto p = plain;
+	auto all = plain;
+	all.insert(all.end(), data.begin(), data.end());
+	vector<byte> p;
 	auto l = iv;
-	for (const auto &b : data) {
+	for (const auto &b : all) {
 		p.push_back(b);
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
@@ -62,6 +64,9 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 
 shared_ptr<const Sink> CFBSink::finalize() const
 {
+	if (plain.size() >= Block::size) {
+		return write({})->finalize();
+	}
 	auto s = sink;
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 2a054dd..0c28809 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -35,10 +35,12 @@ CFBSink::CFBSink(
 shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 {
 	auto s = sink;
-	auto p = plain;
+	auto all = plain;
+	all.insert(all.end(), data.begin(), data.end());
+	vector<byte> p;
 	auto rl = ivl;
 	auto rr = ivr;
-	for (const auto &b : data) {
+	for (const auto &b : all) {
 		p.push_back(b);
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
@@ -63,6 +65,9 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 
 shared_ptr<const Sink> CFBSink::finalize() const
 {
+	if (plain.size() >= Block::size) {
+		return write({})->finalize();
+	}
 	auto s = sink;
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
-- 
2.43.0


From aea975d6b0ace607d4d64e7db0d1d6260d801c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:27 +0000
Subject: [PATCH 19/21] fix: ECBSink refuses an unaligned write before it
 passes anything on

The whole blocks of a refused write had already reached the underlying sink,
where they cannot be taken back.
---
 goost/magma/ECBSink.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/goost/magma/ECBSink.cpp b/goost/magma/ECBSink.cpp
index 53a361b..0121e85 100644
--- a/goost/magma/ECBSink.cpp
+++ b/goost/magma/ECBSink.cpp
@@ -21,6 +21,10 @@ ECBSink::ECBSink(
 
 shared_ptr<const Sink> ECBSink::write(const vector<byte> &data) const
 {
+	if (data.size() % 8 != 0) {
+		throw runtime_error("Unaligned ECB encryption");
+	}
+
 	vector<byte> p;
 	auto s = sink;
 	for (const auto &b : data) {
@@ -36,9 +40,6 @@ shared_ptr<const Sink> ECBSink::write(const vector<byte> &data) const
 			p.clear();
 		}
 	}
-	if (!p.empty()) {
-		throw runtime_error("Unaligned ECB encryption");
-	}
 	return make_shared<ECBSink>(s, key);
 }
 
-- 
2.43.0


From 324c3ee10036a9d9c5742144302538b812153d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:42 +0000
Subject: [PATCH 20/21] fix: substitution tables of the wrong size are refused

---
 goost/magma/SboxByte64Tab.cpp | 4 ++++
 goost/magma/SboxNibble.cpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/goost/magma/SboxByte64Tab.cpp b/goost/magma/SboxByte64Tab.cpp
index 70a191f..66489e2 100644
--- a/goost/magma/SboxByte64Tab.cpp
+++ b/goost/magma/SboxByte64Tab.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "SboxByte64Tab.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,6 +16,9 @@ SboxByte64Tab::SboxByte64Tab(const vector<uint8_t> &uz, int offset)
 
 uint32_t SboxByte64Tab::translate(int index) const
 {
+	if (uz.size() != 64) {
+		throw runtime_error("Wrong sbox size");
+	}
 	return (uz[((index >> 4) & 0xf) * 4 + offset] & 0xf0)
 		+ (uz[(index & 0xf) * 4 + offset] & 0x0f);
 }
diff --git a/goost/magma/SboxNibble.cpp b/goost/magma/SboxNibble.cpp
index c481ab4..6247510 100644
--- a/goost/magma/SboxNibble.cpp
+++ b/goost/magma/SboxNibble.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "SboxNibble.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -29,6 +30,9 @@ uint32_t SboxNibble::transform(uint32_t value) const
 
 uint32_t SboxNibble::transformN(uint32_t value, const vector<int> &p, int nidx) const
 {
+	if (p.size() != 16) {
+		throw runtime_error("Wrong sbox size");
+	}
 	const int i = (value >> (nidx * 4)) & 0xf;
 	return uint32_t(p[i]) << (nidx * 4);
 }
-- 
2.43.0


From 7a0e8f5c0f33a21615f7fc3d2f49a3a60fbfda71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 21/21] fix: key text is parsed without a stream, whose errors
 went unnoticed

---
 goost/magma/KeyDataString.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index b790450..05d71a0 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -6,8 +6,8 @@
 #include "KeyDataString.h"
 #include <algorithm>
 #include <cctype>
-#include <sstream>
 #include <stdexcept>
+#include <string>
 
 using namespace std;
 using namespace goost::magma;
@@ -29,8 +29,5 @@ uint32_t KeyDataString::key(int index) const
 		throw runtime_error("Wrong key index");
 	}
 
-	uint32_t value;
-	istringstream in(string(key_data, index * 8, 8));
-	in >> hex >> value;
-	return value;
+	return stoul(string(key_data, index * 8, 8), nullptr, 16);
 }
-- 
2.43.0

