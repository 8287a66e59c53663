From c048660c6e526ce860b21eb67b04aabf63e82ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 01/20] fix: gost89 CFBSink: encrypt a partial last block in
 place

finalize() applied the two halves of the gamma in the opposite order to
write(), so that a message whose length is not a multiple of 8 could not be
decrypted, and wrote past the end of the buffer of the partial block.
---
 goost/gost89/CFBSink.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..023265f 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,9 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			const auto g = i < 4 ? e.first : e.second;
+			c[i] ^= static_cast<byte>(g >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 6abed1f8a2bc6b92d5439c195dff6e54affc439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 02/20] fix: magma CFBSink: encrypt a partial last block in
 place

finalize() applied the two halves of the gamma in the opposite order to
write(), so that a message whose length is not a multiple of 8 could not be
decrypted, and wrote past the end of the buffer of the partial block.
---
 goost/magma/CFBSink.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..6bd677b 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,9 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			const auto g = i < 4 ? e.first : e.second;
+			c[i] ^= static_cast<byte>(g >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 7dca3dd482064fb4dff95d5820f79f4d2f645ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 03/20] fix: gost89 CFBSource: do not touch memory past a
 partial last block

A last block shorter than 8 bytes was read up to 8 bytes and xored one byte
past its end.
---
 goost/gost89/CFBSource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From bde18b4d2d3ace046b3b9e86b439917f349b3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 04/20] fix: magma CFBSource: do not touch memory past a
 partial last block

A last block shorter than 8 bytes was read up to 8 bytes and xored one byte
past its end.
---
 goost/magma/CFBSource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..336e7fa 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,13 +61,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From f44acc9bd089c9a29e85e9a667c575c9925f5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 05/20] fix: magma ECBSource: reject a partial last block

A last block shorter than 8 bytes was read and written past its end. Report
it like ECBSink and the other unaligned case do.
---
 goost/magma/ECBSource.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..1a72ec0 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -5,6 +5,7 @@
 
 #include "ECBSource.h"
 #include <cstring>
+#include <stdexcept>
 #include <netinet/in.h>
 #include "Container.h"
 #include "BlkDecrypted.h"
@@ -46,6 +47,10 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		return {p, s};
 	}
 
+	if (p.size() != Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
+	}
+
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
 		dynamic_pointer_cast<const LazyKey>(key)
-- 
2.43.0


From 16a66d2bc6bd8466bdf9da5441cc177dfc02445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 06/20] fix: magma BlkShifted: carry between the 32-bit halves

Shifting a 32-bit half by 64 - n is undefined, and the bits that leave the
low half did not enter the high one, which gave wrong Imit keys.
---
 goost/magma/BlkShifted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..83220ac 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,5 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	return {value.first << n, value.second << n | value.first >> (32 - n)};
 }
-- 
2.43.0


From 9fb088211cb69c76235319b9642b1f4ba401def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 07/20] fix: kuznyechik StMemory: iterators keep their stream
 alive

last() and next() of an iterator dereferenced null once the stream it came
from was dropped.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..42935b7 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		const shared_ptr<const Block> &data
 	);
@@ -26,7 +26,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
 };
@@ -35,7 +35,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	const shared_ptr<const Block> &data
 ) : stream(stream), offset(offset), data(data)
@@ -59,8 +59,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From 086400acbab608c9c77a04cb9f9104d8381cfd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 08/20] fix: kuznyechik StMemory: do not read past an odd
 number of words

The last block of a stream with an odd number of 64-bit words took its high
half from past the end of the data. It is a block of 8 bytes.
---
 goost/kuznyechik/StMemory.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 42935b7..559382f 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -18,7 +18,8 @@ public:
 	ItMemory(
 		const shared_ptr<const StMemory> &stream,
 		size_t offset,
-		const shared_ptr<const Block> &data
+		const shared_ptr<const Block> &data,
+		size_t data_size
 	);
 
 	pair<uint64_t, uint64_t> value() const override;
@@ -29,6 +30,7 @@ private:
 	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
+	const size_t data_size;
 };
 
 }  // namespace kuznyechik
@@ -37,8 +39,9 @@ private:
 ItMemory::ItMemory(
 	const shared_ptr<const StMemory> &stream,
 	size_t offset,
-	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+	const shared_ptr<const Block> &data,
+	size_t data_size
+) : stream(stream), offset(offset), data(data), data_size(data_size)
 {
 }
 
@@ -54,7 +57,7 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return data_size;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
@@ -77,9 +80,19 @@ shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 	if (data.size() <= offset / sizeof(uint64_t)) {
 		return {};
 	}
+	const auto index = offset / sizeof(uint64_t);
+	if (data.size() - index == 1) {
+		return make_shared<const ItMemory>(
+			shared_from_this(),
+			offset,
+			make_shared<BlkRaw>(data[index], 0),
+			sizeof(uint64_t)
+		);
+	}
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
-		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
+		make_shared<BlkRaw>(&data[index]),
+		Block::size
 	);
 }
-- 
2.43.0


From e6c11f9772572154b4dd7e656ecd3bc13fad51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 09/20] fix: kuznyechik StCTREncrypted: end where the stream
 ends

The end of the underlying stream was wrapped into an iterator that
dereferences null instead of being passed on.
---
 goost/kuznyechik/StCTREncrypted.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..7b98897 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	const auto next_iter = iter->next();
+	if (!next_iter) {
+		return {};
+	}
+	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkIncremented>(ctr));
 }
 
 StCTREncrypted::StCTREncrypted(
@@ -70,5 +74,9 @@ StCTREncrypted::StCTREncrypted(
 
 shared_ptr<const Iterator> StCTREncrypted::iter() const
 {
-	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
+	const auto first = stream->iter();
+	if (!first) {
+		return {};
+	}
+	return make_shared<const ItCTREncrypted>(first, key, make_unique<BlkRaw>(0, iv));
 }
-- 
2.43.0


From 9abad67283f7459b6997167f018776a2396d466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 10/20] fix: kuznyechik Imit: do not nest the blocks of the
 message

The chain was evaluated only at its end, with one level of recursion for
every transform of every block, and overflowed the stack for messages of
8 KiB.
---
 goost/kuznyechik/Imit.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..cd1445e 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,9 +54,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
-			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
-			key
+		block = make_shared<const BlkRaw>(
+			BlkEncrypted(
+				make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
+				key
+			).value()
 		);
 		iter = iter->next();
 	}
-- 
2.43.0


From 91ddcfe283830712dc5c06934e65d37659889478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 11/20] fix: magma Imit: do not nest the blocks of the message

The chain was evaluated only at its end, with one level of recursion for
every transform of every block, and overflowed the stack for messages of
some hundred KiB.
---
 goost/magma/Imit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..a0ea229 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -96,7 +96,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(BlkEncrypted(block, key).value());
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From a86b87155ce717a0e64ecaccfd0fbf80fde49897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 12/20] fix: kuznyechik StCTREncrypted: do not nest the
 counters

Every block's counter was one more increment around all the previous ones,
evaluated (and destroyed) recursively: the stack overflowed after a few
hundred thousand blocks.
---
 goost/kuznyechik/StCTREncrypted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 7b98897..5ee1f75 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -61,7 +61,7 @@ shared_ptr<const Iterator> ItCTREncrypted::next() const
 	if (!next_iter) {
 		return {};
 	}
-	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkRaw>(BlkIncremented(ctr).value()));
 }
 
 StCTREncrypted::StCTREncrypted(
-- 
2.43.0


From 5634cbd5fb30ccd1f41cc4f2b7b05416f795c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 13/20] fix: magma KeyDataString: refuse text that is not
 hexadecimal

A key word with a wrong character in it silently became zero, or the number
in front of the character.
---
 goost/magma/KeyDataString.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..f38b17c 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -4,6 +4,8 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <algorithm>
+#include <cctype>
 #include <sstream>
 #include <stdexcept>
 
@@ -23,6 +25,9 @@ uint32_t KeyDataString::key(int index) const
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
+	if (!all_of(key_data.begin(), key_data.end(), [](unsigned char c) { return isxdigit(c); })) {
+		throw runtime_error("Wrong key digit");
+	}
 
 	uint32_t value;
 	istringstream in(string(key_data, index * 8, 8));
-- 
2.43.0


From 04fd22d8202333622575630e4f4025d575113a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 14/20] fix: magma BlkString: refuse text that is not a
 hexadecimal block

The digits after a wrong character, or past the size of a block, were
silently dropped.
---
 goost/magma/BlkString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/goost/magma/BlkString.cpp b/goost/magma/BlkString.cpp
index 07c57d4..f74e408 100644
--- a/goost/magma/BlkString.cpp
+++ b/goost/magma/BlkString.cpp
@@ -4,6 +4,9 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <algorithm>
+#include <cctype>
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,6 +18,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint32_t, uint32_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (!all_of(block.begin(), block.end(), [](unsigned char c) { return isxdigit(c); })) {
+		throw runtime_error("Wrong block digit");
+	}
 	auto value = block;
 	while (value.size() < Block::size * 2) {
 		value.insert(0, 1, '0');
-- 
2.43.0


From c1cc0af985bc068af659a98a8c640209145b25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 15/20] fix: kuznyechik BlkString: refuse text that is not a
 hexadecimal block

The digits after a wrong character, or past the size of a block, were
silently dropped.
---
 goost/kuznyechik/BlkString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/goost/kuznyechik/BlkString.cpp b/goost/kuznyechik/BlkString.cpp
index 762b7f8..92bfe71 100644
--- a/goost/kuznyechik/BlkString.cpp
+++ b/goost/kuznyechik/BlkString.cpp
@@ -4,6 +4,9 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <algorithm>
+#include <cctype>
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -15,6 +18,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint64_t, uint64_t> BlkString::value() const
 {
+	if (block.size() > sizeof(uint64_t) * 2 * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (!all_of(block.begin(), block.end(), [](unsigned char c) { return isxdigit(c); })) {
+		throw runtime_error("Wrong block digit");
+	}
 	auto value = block;
 	while (value.size() < sizeof(uint64_t) * 2 * 2) {
 		value.insert(0, 1, '0');
-- 
2.43.0


From 40e29597bddf44f31f89cddb8ff07721a9914e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 16/20] fix: kuznyechik KeyDataString: refuse keys of the wrong
 size

Texts of 32..63 digits were padded in the middle, longer ones cut, as
another key than the text spells.
---
 goost/kuznyechik/KeyDataString.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..630793e 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -17,10 +18,16 @@ KeyDataString::KeyDataString(const string &key_data)
 
 shared_ptr<const Block> KeyDataString::low() const
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
 	return make_shared<BlkString>(string(key_data, 32, 32));
 }
 
 shared_ptr<const Block> KeyDataString::high() const
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
 	return make_shared<BlkString>(string(key_data, 0, 32));
 }
-- 
2.43.0


From 13bf1b5acb3d72f9a409e58454781fa7203a2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 17/20] fix: CFB and ECB modes: accept every Key, not only
 LazyKey

---
 goost/gost89/CFBSink.cpp      | 4 ++--
 goost/gost89/CFBSource.cpp    | 2 +-
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 4 ++--
 goost/magma/CFBSource.cpp     | 2 +-
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 14 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 023265f..a46ea67 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..469866e 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -50,7 +50,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 6bd677b..b935627 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +68,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 336e7fa..99bf0a7 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 1a72ec0..1e10bf2 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -53,7 +53,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index a0ea229..3c840f6 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
-- 
2.43.0


From 06c073f5ce3afbfa05519f73631fdad7719ec821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 18/20] fix: magma KeyCachedData: refuse an index outside the
 key

---
 goost/magma/KeyCachedData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..b1370dd 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -21,5 +21,5 @@ uint32_t KeyCachedData::key(int index) const
 		}
 		cache->cached = true;
 	}
-	return cache->key[index];
+	return cache->key.at(index);
 }
-- 
2.43.0


From 3a7ae75ff887242f962d3327d2803cdcf7b44ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 19/20] fix: magma KeyDataNative: refuse a key that is too
 short

---
 goost/magma/KeyDataNative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..f96d768 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -15,5 +15,5 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
-	return key_data[index];
+	return key_data.at(index);
 }
-- 
2.43.0


From 26c203501dbf361b98a802005d1d12cf9d2be1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 20/20] fix: magma ECBSource: refuse a container with a key or
 table of the wrong size

---
 goost/magma/ECBSource.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 1e10bf2..845cb94 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -66,13 +66,16 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 	vector<uint32_t> key(8);
 	// @todo need to use mask
 	const auto ik = container->key();
+	const auto is = container->sbox();
+	if (ik.size() != 32 || is.size() != 64) {
+		throw runtime_error("Wrong container");
+	}
 	memcpy(&key[0], &ik[0], ik.size());
 	for (auto &k : key) {
 		k = htonl(k);
 	}
 
 	vector<uint8_t> sbox(64);
-	const auto is = container->sbox();
 	memcpy(&sbox[0], &is[0], is.size());
 
 	return make_shared<LazyKey>(key, make_shared<SboxTwisted>(make_unique<SboxByte>(sbox)));
-- 
2.43.0

